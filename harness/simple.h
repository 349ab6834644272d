// Random scans and images for the simple interface, with what reading must give back.
#pragma once
#include <mutex>
#include <set>
#include "api.h"
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"
#include <cmath>

namespace simple
{
   using mon::bytes;
   using mon::fmt;
   using mon::Rng;
   using std::string;
   using std::vector;
   using NT = e57::NumericalNodeType;
   static const double DMAX = e57::DOUBLE_MAX;

   // identifiers made up by the library are never the same
   inline void generated( const string &guid, const char *what )
   {
      static std::mutex m;
      static std::set<string> seen;
      std::lock_guard<std::mutex> l( m );
      // {8-4-4-4-12}
      bool form = guid.size() == 38;
      for ( size_t k = 0; form && k < 38; k++ )
      {
         const char c = guid[k];
         form = k == 0 ? c == '{' : k == 37 ? c == '}' : k == 9 || k == 14 || k == 19 || k == 24 ? c == '-' : isxdigit( (unsigned char)c ) != 0;
      }
      MON_CHECK( form, "guid-form", string( what ) + " " + guid );
      MON_CHECK( seen.insert( guid ).second, "guid-repeated", string( what ) + " " + guid );
      if ( seen.size() > 100000 )
      {
         seen.clear();
      }
   }
   inline bool same( double a, double b )
   {
      return ( std::isnan( a ) && std::isnan( b ) ) || model::bitsOf( a ) == model::bitsOf( b );
   }

   // a numeric field kind: how values are stored and in what range
   struct Axis
   {
      NT type = NT::Float;
      double scale = 0;
      int64_t lo = 0, hi = 0; // raw
      double min = -DMAX, max = DMAX;
      bool given = true; // bounds given in the header (otherwise left to the library)
   };

   struct Scan
   {
      e57::Data3D h;        // as given
      bool dbl = true;      // coordinates in double
      bool own = true;      // buffers of our own, otherwise made by the library
      bool whole = true;    // WriteData3DData in one call
      size_t block = 0;     // otherwise written in blocks of this size
      size_t n = 0;
      Axis point, angle, time, inten;
      vector<double> x, y, z, range, az, el, intensity, time_;
      vector<uint16_t> red, green, blue;
      vector<int8_t> cInv, sInv, iInv, colInv, tInv, retI, retC;
      vector<int32_t> row, col;
      vector<float> nx, ny, nz;
      vector<int64_t> gid, gstart, gcount;
      string shape;
   };

   template <class T, class V> void eachField( const e57::PointStandardizedFieldsAvailable &f, e57::Data3DPointsData_t<T> &p, Scan &s, V v )
   {
      v( "cartesianX", f.cartesianXField, p.cartesianX, s.x );
      v( "cartesianY", f.cartesianYField, p.cartesianY, s.y );
      v( "cartesianZ", f.cartesianZField, p.cartesianZ, s.z );
      v( "cartesianInvalidState", f.cartesianInvalidStateField, p.cartesianInvalidState, s.cInv );
      v( "sphericalRange", f.sphericalRangeField, p.sphericalRange, s.range );
      v( "sphericalAzimuth", f.sphericalAzimuthField, p.sphericalAzimuth, s.az );
      v( "sphericalElevation", f.sphericalElevationField, p.sphericalElevation, s.el );
      v( "sphericalInvalidState", f.sphericalInvalidStateField, p.sphericalInvalidState, s.sInv );
      v( "intensity", f.intensityField, p.intensity, s.intensity );
      v( "isIntensityInvalid", f.isIntensityInvalidField, p.isIntensityInvalid, s.iInv );
      v( "colorRed", f.colorRedField, p.colorRed, s.red );
      v( "colorGreen", f.colorGreenField, p.colorGreen, s.green );
      v( "colorBlue", f.colorBlueField, p.colorBlue, s.blue );
      v( "isColorInvalid", f.isColorInvalidField, p.isColorInvalid, s.colInv );
      v( "rowIndex", f.rowIndexField, p.rowIndex, s.row );
      v( "columnIndex", f.columnIndexField, p.columnIndex, s.col );
      v( "returnIndex", f.returnIndexField, p.returnIndex, s.retI );
      v( "returnCount", f.returnCountField, p.returnCount, s.retC );
      v( "timeStamp", f.timeStampField, p.timeStamp, s.time_ );
      v( "isTimeStampInvalid", f.isTimeStampInvalidField, p.isTimeStampInvalid, s.tInv );
      v( "normalX", f.normalXField, p.normalX, s.nx );
      v( "normalY", f.normalYField, p.normalY, s.ny );
      v( "normalZ", f.normalZField, p.normalZ, s.nz );
   }

   // buffers of exactly the extent asked for
   template <class T> struct Bufs
   {
      e57::Data3DPointsData_t<T> p;
      vector<std::shared_ptr<void>> own;
      size_t cap;
      Bufs( Scan &s, const e57::PointStandardizedFieldsAvailable &f, size_t n ) : cap( n )
      {
         eachField( f, p, s, [&]( const char *, bool on, auto *&ptr, auto & ) {
            if ( on )
            {
               using E = typename std::remove_reference<decltype( *ptr )>::type;
               std::shared_ptr<E> mem( new E[n], []( E *q ) { delete[] q; } );
               std::memset( static_cast<void *>( mem.get() ), 0x5A, n * sizeof( E ) );
               ptr = mem.get();
               own.push_back( mem );
            }
         } );
      }
   };
   template <class T> void fill( e57::Data3DPointsData_t<T> &p, Scan &s, size_t at, size_t n )
   {
      eachField( s.h.pointFields, p, s, [&]( const char *, bool on, auto *&ptr, auto &vec ) {
         if ( on )
         {
            for ( size_t k = 0; k < n; k++ )
            {
               ptr[k] = static_cast<typename std::remove_reference<decltype( *ptr )>::type>( vec[at + k] );
            }
         }
      } );
   }

   struct Gen
   {
      Rng &r;
      model::Gen g;
      bool lively = true; // special values (NaN, infinities, bounds without zero)
      explicit Gen( Rng &rng ) : r( rng ), g( rng )
      {
      }
      string text( unsigned max )
      {
         return r.chance( 1, 3 ) ? string() : g.text( max );
      }
      e57::DateTime when()
      {
         e57::DateTime d;
         if ( r.chance( 2, 3 ) )
         {
            d.dateTimeValue = r.chance( 1, 4 ) ? 1e-300 : 1e9 * r.unit() + 1;
            d.isAtomicClockReferenced = int( r.below( 2 ) );
         }
         return d;
      }
      e57::RigidBodyTransform pose()
      {
         e57::RigidBodyTransform p;
         if ( r.chance( 1, 4 ) )
         {
            return p;
         }
         // sometimes only one of the seven numbers differs from the identity
         double *v[] = { &p.rotation.w, &p.rotation.x, &p.rotation.y, &p.rotation.z, &p.translation.x, &p.translation.y, &p.translation.z };
         if ( r.chance( 1, 3 ) )
         {
            *v[r.below( 7 )] = g.finiteDouble();
         }
         else
         {
            for ( auto *q : v )
            {
               *q = r.chance( 1, 5 ) ? g.finiteDouble() : r.unit() * 2 - 1;
            }
         }
         return p;
      }
      // some of the entries replaced
      void bounds( vector<std::pair<double *, double *>> b )
      {
         if ( r.chance( 1, 4 ) )
         {
            return;
         }
         const bool one = r.chance( 1, 3 );
         const size_t which = r.below( b.size() );
         for ( size_t k = 0; k < b.size(); k++ )
         {
            if ( !one || k == which )
            {
               double a = r.unit() * 100 - 50, c = r.unit() * 100 - 50;
               if ( r.chance( 4, 5 ) )
               {
                  *b[k].first = std::min( a, c );
               }
               if ( r.chance( 4, 5 ) )
               {
                  *b[k].second = std::max( a, c );
               }
            }
         }
      }
      Axis axis( bool dbl, bool own, bool whole, bool mayInt, double defMin, double defMax )
      {
         Axis a;
         const unsigned k = unsigned( r.below( mayInt ? 4 : 3 ) );
         a.type = k == 0 ? NT::ScaledInteger : k == 1 ? NT::Float : k == 2 ? NT::Double : NT::Integer;
         a.min = defMin;
         a.max = defMax;
         a.given = true;
         if ( a.type == NT::ScaledInteger || a.type == NT::Integer )
         {
            a.scale = a.type == NT::Integer ? 1 : r.pick( vector<double>{ 0.001, 0.01, 0.5, 1.0, 0.0001, 1e-6, 3.0, 0.1 } );
            const int64_t top = dbl ? ( 1LL << r.range( 1, 40 ) ) : ( 1LL << r.range( 1, 20 ) );
            const int64_t p = r.range( -top, top ), q = r.range( -top, top );
            a.lo = std::min( p, q );
            a.hi = std::max( p, q );
            if ( !lively || r.chance( 1, 2 ) )
            {
               a.lo = std::min<int64_t>( a.lo, 0 );
               a.hi = std::max<int64_t>( a.hi, 0 );
            }
            a.given = a.type == NT::Integer || !whole || r.chance( 1, 2 );
            if ( a.given )
            {
               a.min = double( a.lo ) * a.scale;
               a.max = double( a.hi ) * a.scale;
            }
         }
         else if ( own && r.chance( 1, 3 ) )
         {
            a.min = lively && r.chance( 1, 3 ) ? 1.5 : -1000;
            a.max = 2000.25;
         }
         return a;
      }
      double value( const Axis &a, bool dbl )
      {
         switch ( a.type )
         {
            case NT::Integer:
            case NT::ScaledInteger:
            {
               const int64_t raw = r.chance( 1, 8 ) ? ( r.chance( 1, 2 ) ? a.lo : a.hi ) : r.range( a.lo, a.hi );
               const double v = double( raw ) * a.scale + 0.0;
               return dbl ? v : double( float( v ) );
            }
            default:
               if ( a.max == 2000.25 )
               {
                  return double( float( a.min + ( a.max - a.min ) * r.unit() ) );
               }
               if ( lively && r.chance( 1, 30 ) )
               {
                  const double v = r.pick( vector<double>{ NAN, INFINITY, -INFINITY, -0.0, double( 1e-45f ), double( e57::FLOAT_MAX ), double( e57::FLOAT_MIN ) } );
                  // infinities aren't converted between the precisions
                  return std::isinf( v ) && ( a.type == NT::Float ) == dbl ? 1.0 : v;
               }
               if ( a.type == NT::Double && dbl )
               {
                  return r.chance( 1, 4 ) ? g.finiteDouble() : ( r.unit() - 0.5 ) * 1e4;
               }
               return double( r.chance( 1, 4 ) ? g.finiteFloat() : float( ( r.unit() - 0.5 ) * 1e4 ) );
         }
      }
      template <class E, class F> void column( bool on, vector<E> &v, size_t n, F f )
      {
         v.clear();
         for ( size_t k = 0; on && k < n; k++ )
         {
            v.push_back( static_cast<E>( f() ) );
         }
      }
      Scan scan( size_t n )
      {
         Scan s;
         e57::Data3D &h = s.h;
         s.n = n;
         h.pointCount = n;
         s.dbl = r.chance( 1, 2 );
         s.own = r.chance( 1, 2 );
         s.whole = r.chance( 1, 2 );
         s.block = n ? 1 + r.below( n ) : 1;
         if ( n > 500 && s.block < 50 )
         {
            s.block = 50 + r.below( n );
         }
         h.guid = r.chance( 1, 5 ) ? string() : g.text( 30 );
         h.name = text( 40 );
         h.description = text( 200 );
         for ( unsigned k = unsigned( r.chance( 1, 2 ) ? r.below( 5 ) : 0 ); k > 0; k-- )
         {
            h.originalGuids.push_back( text( 30 ) );
         }
         h.sensorVendor = text( 10 );
         h.sensorModel = text( 10 );
         h.sensorSerialNumber = text( 10 );
         h.sensorHardwareVersion = text( 10 );
         h.sensorSoftwareVersion = text( 10 );
         h.sensorFirmwareVersion = text( 10 );
         for ( float *f : { &h.temperature, &h.relativeHumidity, &h.atmosphericPressure } )
         {
            if ( r.chance( 1, 2 ) )
            {
               *f = r.chance( 1, 5 ) ? 0.f : r.chance( 1, 3 ) ? g.finiteFloat() : float( r.unit() * 100 );
            }
         }
         h.acquisitionStart = when();
         h.acquisitionEnd = when();
         h.pose = pose();
         int64_t *ib[] = { &h.indexBounds.rowMinimum, &h.indexBounds.rowMaximum, &h.indexBounds.columnMinimum, &h.indexBounds.columnMaximum, &h.indexBounds.returnMinimum,
                           &h.indexBounds.returnMaximum };
         for ( unsigned k = 0; k < 6; k += 2 )
         {
            if ( r.chance( 1, 2 ) )
            {
               const int64_t top = r.chance( 1, 4 ) ? ( 1LL << 61 ) : 5000;
               *ib[k] = r.chance( 1, 2 ) ? 0 : r.range( -top, top );
               *ib[k + 1] = r.range( *ib[k], std::max<int64_t>( *ib[k], top ) );
            }
         }
         auto &cb = h.cartesianBounds;
         bounds( { { &cb.xMinimum, &cb.xMaximum }, { &cb.yMinimum, &cb.yMaximum }, { &cb.zMinimum, &cb.zMaximum } } );
         auto &sb = h.sphericalBounds;
         bounds( { { &sb.rangeMinimum, &sb.rangeMaximum }, { &sb.elevationMinimum, &sb.elevationMaximum }, { &sb.azimuthStart, &sb.azimuthEnd } } );

         auto &f = h.pointFields;
         const unsigned kind = unsigned( r.below( 8 ) );
         bool cart = kind != 1, sph = kind == 1 || kind == 2;
         f.cartesianXField = f.cartesianYField = f.cartesianZField = cart;
         if ( cart && lively && r.chance( 1, 6 ) )
         {
            // any subset
            f.cartesianXField = r.chance( 1, 2 );
            f.cartesianYField = r.chance( 1, 2 );
            f.cartesianZField = r.chance( 1, 2 );
         }
         f.sphericalRangeField = f.sphericalAzimuthField = f.sphericalElevationField = sph;
         if ( sph && lively && r.chance( 1, 6 ) )
         {
            f.sphericalRangeField = r.chance( 1, 2 );
            f.sphericalAzimuthField = r.chance( 1, 2 );
            f.sphericalElevationField = r.chance( 1, 2 );
         }
         auto coin = [&] { return r.chance( 1, 3 ); };
         f.cartesianInvalidStateField = coin();
         f.sphericalInvalidStateField = coin();
         f.intensityField = coin();
         f.isIntensityInvalidField = coin();
         const bool colour = coin();
         f.colorRedField = f.colorGreenField = f.colorBlueField = colour;
         f.isColorInvalidField = coin();
         f.rowIndexField = coin();
         f.columnIndexField = coin();
         f.returnIndexField = coin();
         f.returnCountField = coin();
         f.timeStampField = coin();
         f.isTimeStampInvalidField = coin();
         f.normalXField = f.normalYField = f.normalZField = coin();
         if ( lively && r.chance( 1, 10 ) )
         {
            f.colorRedField = coin();
            f.colorBlueField = coin();
            f.normalXField = coin();
            f.normalZField = coin();
         }
         if ( !( f.cartesianXField || f.cartesianYField || f.cartesianZField || f.sphericalRangeField || f.sphericalAzimuthField || f.sphericalElevationField ) )
         {
            f.cartesianXField = true; // every scan has some field
         }

         const double lowest = s.dbl ? -DMAX : double( e57::FLOAT_MIN ), highest = s.dbl ? DMAX : double( e57::FLOAT_MAX );
         s.point = axis( s.dbl, s.own, s.whole, false, lowest, highest );
         s.angle = axis( s.dbl, s.own, s.whole, false, lowest, highest );
         s.time = axis( true, s.own, s.whole, true, lowest, highest );
         for ( Axis *a : { &s.point, &s.angle } )
         {
            if ( !s.own && a->type != NT::ScaledInteger )
            {
               a->type = s.dbl ? NT::Double : NT::Float;
            }
         }
         f.pointRangeNodeType = s.point.type;
         f.pointRangeScale = s.point.scale;
         f.pointRangeMinimum = s.point.min;
         f.pointRangeMaximum = s.point.max;
         f.angleNodeType = s.angle.type;
         f.angleScale = s.angle.scale;
         f.angleMinimum = s.angle.min;
         f.angleMaximum = s.angle.max;
         f.timeNodeType = s.time.type;
         f.timeScale = s.time.type == NT::ScaledInteger ? s.time.scale : 0;
         f.timeMinimum = s.time.min;
         f.timeMaximum = s.time.max;

         Axis &in = s.inten;
         in.type = r.pick( vector<NT>{ NT::Integer, NT::ScaledInteger, NT::Float, NT::Double } );
         f.intensityNodeType = in.type;
         if ( in.type == NT::Integer || in.type == NT::ScaledInteger )
         {
            in.scale = in.type == NT::Integer ? 1 : r.pick( vector<double>{ 0.001, 0.5, 1.0, 0.01 } );
            f.intensityScale = in.type == NT::ScaledInteger ? in.scale : 0;
            in.lo = lively ? r.range( -100, 100 ) : 0;
            in.hi = in.lo + int64_t( r.below( r.chance( 1, 2 ) ? 256 : 70000 ) );
            h.intensityLimits.intensityMinimum = double( in.lo ) * in.scale;
            h.intensityLimits.intensityMaximum = double( in.hi ) * in.scale;
         }
         else if ( r.chance( 3, 4 ) )
         {
            h.intensityLimits.intensityMinimum = lively && r.chance( 1, 3 ) ? 0.25 : 0;
            h.intensityLimits.intensityMaximum = r.chance( 1, 2 ) ? 1 : 1023.5;
         }
         in.min = h.intensityLimits.intensityMinimum;
         in.max = h.intensityLimits.intensityMaximum;
         struct
         {
            double *lo, *hi;
         } cl[] = { { &h.colorLimits.colorRedMinimum, &h.colorLimits.colorRedMaximum },
                    { &h.colorLimits.colorGreenMinimum, &h.colorLimits.colorGreenMaximum },
                    { &h.colorLimits.colorBlueMinimum, &h.colorLimits.colorBlueMaximum } };
         const bool odd = lively && r.chance( 1, 3 );
         for ( auto &c : cl )
         {
            const uint64_t top = odd ? r.below( 65536 ) : r.pick( vector<uint64_t>{ 255, 255, 1023, 65535 } );
            *c.hi = odd && r.chance( 1, 4 ) ? 0 : double( top );
            *c.lo = odd ? double( r.below( uint64_t( *c.hi ) + 1 ) ) : 0;
         }
         f.rowIndexMaximum = r.chance( 1, 4 ) ? UINT32_MAX : uint32_t( r.below( 100000 ) );
         f.columnIndexMaximum = r.chance( 1, 4 ) ? UINT32_MAX : uint32_t( r.below( 100000 ) );
         f.returnMaximum = uint8_t( r.below( 256 ) );
         auto upTo = [&]( uint64_t most, uint64_t limit ) { return r.chance( 1, 8 ) ? std::min( most, limit ) : r.below( std::min( most, limit ) + 1 ); };

         column( f.cartesianXField, s.x, n, [&] { return value( s.point, s.dbl ); } );
         column( f.cartesianYField, s.y, n, [&] { return value( s.point, s.dbl ); } );
         column( f.cartesianZField, s.z, n, [&] { return value( s.point, s.dbl ); } );
         column( f.sphericalRangeField, s.range, n, [&] { return value( s.point, s.dbl ); } );
         column( f.sphericalAzimuthField, s.az, n, [&] { return value( s.angle, s.dbl ); } );
         column( f.sphericalElevationField, s.el, n, [&] { return value( s.angle, s.dbl ); } );
         column( f.timeStampField, s.time_, n, [&] { return value( s.time, true ); } );
         column( f.intensityField, s.intensity, n, [&] {
            return in.type == NT::Integer || in.type == NT::ScaledInteger ? value( in, true ) : double( float( in.min + ( in.max - in.min ) * r.unit() ) );
         } );
         column( f.colorRedField, s.red, n, [&] { return r.range( int64_t( *cl[0].lo ), int64_t( *cl[0].hi ) ); } );
         column( f.colorGreenField, s.green, n, [&] { return r.range( int64_t( *cl[1].lo ), int64_t( *cl[1].hi ) ); } );
         column( f.colorBlueField, s.blue, n, [&] { return r.range( int64_t( *cl[2].lo ), int64_t( *cl[2].hi ) ); } );
         column( f.cartesianInvalidStateField, s.cInv, n, [&] { return r.below( 3 ); } );
         column( f.sphericalInvalidStateField, s.sInv, n, [&] { return r.below( 3 ); } );
         column( f.isIntensityInvalidField, s.iInv, n, [&] { return r.below( 2 ); } );
         column( f.isColorInvalidField, s.colInv, n, [&] { return r.below( 2 ); } );
         column( f.isTimeStampInvalidField, s.tInv, n, [&] { return r.below( 2 ); } );
         column( f.rowIndexField, s.row, n, [&] { return upTo( f.rowIndexMaximum, INT32_MAX ); } );
         column( f.columnIndexField, s.col, n, [&] { return upTo( f.columnIndexMaximum, INT32_MAX ); } );
         column( f.returnIndexField, s.retI, n, [&] { return upTo( f.returnMaximum, 127 ); } );
         column( f.returnCountField, s.retC, n, [&] { return upTo( f.returnMaximum, 127 ); } );
         column( f.normalXField, s.nx, n, [&] { return r.unit() * 2 - 1; } );
         column( f.normalYField, s.ny, n, [&] { return r.unit() * 2 - 1; } );
         column( f.normalZField, s.nz, n, [&] { return r.unit() * 2 - 1; } );

         if ( n > 0 && r.chance( 1, 3 ) )
         {
            auto &gl = h.pointGroupingSchemes.groupingByLine;
            gl.idElementName = r.chance( 1, 2 ) ? "rowIndex" : "columnIndex";
            const size_t m = 1 + r.below( r.chance( 1, 5 ) ? 3000 : 20 );
            gl.groupsSize = int64_t( m );
            gl.pointCountSize = r.range( 0, r.chance( 1, 4 ) ? INT64_MAX : int64_t( n ) );
            for ( size_t k = 0; k < m; k++ )
            {
               s.gid.push_back( r.range( 0, int64_t( m ) - 1 ) );
               s.gstart.push_back( r.range( 0, int64_t( n ) - 1 ) );
               s.gcount.push_back( r.range( 0, gl.pointCountSize ) );
            }
         }
         eachField( f, dummy(), s, [&]( const char *, bool on, auto *&, auto & ) { s.shape += on ? '1' : '0'; } );
         s.shape += fmt( " %d%d%d pt%d%d an%d%d ti%d%d in%d g%d", s.dbl, s.own, s.whole, int( s.point.type ), s.point.given, int( s.angle.type ), s.angle.given,
                         int( s.time.type ), s.time.given, int( in.type ), !s.gid.empty() );
         return s;
      }
      static e57::Data3DPointsData_t<double> &dummy()
      {
         static e57::Data3DPointsData_t<double> d;
         return d;
      }
   };

   // write; the header given is changed by the library (guid, ranges), the scan keeps the values meant
   template <class T> int64_t writeAs( e57::Writer &w, Scan &s, Rng &r )
   {
      e57::Data3D h = s.h;
      int64_t at = -1;
      std::unique_ptr<Bufs<T>> own;
      std::unique_ptr<e57::Data3DPointsData_t<T>> lib;
      const size_t cap = s.whole ? s.n : s.block;
      e57::Data3DPointsData_t<T> *p;
      if ( s.own )
      {
         own.reset( new Bufs<T>( s, s.h.pointFields, cap ) );
         p = &own->p;
      }
      else
      {
         e57::Data3D &hh = h;
         const size_t n = hh.pointCount;
         hh.pointCount = cap;
         lib.reset( new e57::Data3DPointsData_t<T>( hh ) );
         hh.pointCount = n;
         p = lib.get();
         if ( !s.dbl )
         {
            // documented: the constructor replaces the ranges; the caller gives them again
            auto &f = h.pointFields;
            const auto &o = s.h.pointFields;
            if ( s.point.given )
            {
               f.pointRangeMinimum = o.pointRangeMinimum;
               f.pointRangeMaximum = o.pointRangeMaximum;
            }
            if ( s.angle.given )
            {
               f.angleMinimum = o.angleMinimum;
               f.angleMaximum = o.angleMaximum;
            }
            if ( s.time.given )
            {
               f.timeMinimum = o.timeMinimum;
               f.timeMaximum = o.timeMaximum;
            }
         }
      }
      auto groups = [&] {
         if ( !s.gid.empty() )
         {
            auto id = s.gid, st = s.gstart, ct = s.gcount;
            const bool ok = w.WriteData3DGroupsData( at, id.size(), id.data(), st.data(), ct.data() );
            MON_CHECK( ok, "groups-not-written", "" );
         }
      };
      if ( s.whole )
      {
         fill( *p, s, 0, s.n );
         at = w.WriteData3DData( h, *p );
         groups();
      }
      else
      {
         at = w.NewData3D( h );
         const bool before = r.chance( 1, 2 );
         if ( before )
         {
            groups();
         }
         if ( s.n > 0 )
         {
            e57::CompressedVectorWriter cw = w.SetUpData3DPointsData( at, cap, *p );
            for ( size_t k = 0; k < s.n; )
            {
               const size_t m = std::min( cap - ( r.chance( 1, 4 ) ? r.below( cap ) : 0 ), s.n - k );
               fill( *p, s, k, m );
               cw.write( m );
               k += m;
            }
            cw.close();
         }
         if ( !before )
         {
            groups();
         }
      }
      MON_CHECK( s.h.guid.empty() ? !h.guid.empty() : h.guid == s.h.guid, "guid-changed", h.guid );
      if ( s.h.guid.empty() )
      {
         generated( h.guid, "scan" );
      }
      s.h.guid = h.guid;
      return at;
   }
   inline int64_t write( e57::Writer &w, Scan &s, Rng &r )
   {
      return s.dbl ? writeAs<double>( w, s, r ) : writeAs<float>( w, s, r );
   }

   // the header the reader must report; empty if equal
   inline string headerDiff( const Scan &s, const e57::Data3D &b )
   {
      const e57::Data3D &a = s.h;
      string d;
      auto str = [&]( const char *w, const string &x, const string &y ) {
         if ( x != y && d.empty() )
         {
            d = fmt( "%s: %s became %s", w, mon::quote( x ).c_str(), mon::quote( y ).c_str() );
         }
      };
      auto num = [&]( const char *w, double x, double y ) {
         if ( !same( x, y ) && !( x == 0 && y == 0 ) && d.empty() )
         {
            d = fmt( "%s: %.17g became %.17g", w, x, y );
         }
      };
      auto i64 = [&]( const char *w, int64_t x, int64_t y ) {
         if ( x != y && d.empty() )
         {
            d = fmt( "%s: %" PRId64 " became %" PRId64, w, x, y );
         }
      };
      str( "guid", a.guid, b.guid );
      str( "name", a.name, b.name );
      str( "description", a.description, b.description );
      i64( "originalGuids", int64_t( a.originalGuids.size() ), int64_t( b.originalGuids.size() ) );
      for ( size_t k = 0; k < std::min( a.originalGuids.size(), b.originalGuids.size() ); k++ )
      {
         str( "originalGuid", a.originalGuids[k], b.originalGuids[k] );
      }
      str( "sensorVendor", a.sensorVendor, b.sensorVendor );
      str( "sensorModel", a.sensorModel, b.sensorModel );
      str( "sensorSerialNumber", a.sensorSerialNumber, b.sensorSerialNumber );
      str( "sensorHardwareVersion", a.sensorHardwareVersion, b.sensorHardwareVersion );
      str( "sensorSoftwareVersion", a.sensorSoftwareVersion, b.sensorSoftwareVersion );
      str( "sensorFirmwareVersion", a.sensorFirmwareVersion, b.sensorFirmwareVersion );
      num( "temperature", double( a.temperature ), double( b.temperature ) );
      num( "relativeHumidity", double( a.relativeHumidity ), double( b.relativeHumidity ) );
      num( "atmosphericPressure", double( a.atmosphericPressure ), double( b.atmosphericPressure ) );
      num( "acquisitionStart", a.acquisitionStart.dateTimeValue, b.acquisitionStart.dateTimeValue );
      i64( "acquisitionStart atomic", a.acquisitionStart.isAtomicClockReferenced, b.acquisitionStart.isAtomicClockReferenced );
      num( "acquisitionEnd", a.acquisitionEnd.dateTimeValue, b.acquisitionEnd.dateTimeValue );
      i64( "acquisitionEnd atomic", a.acquisitionEnd.isAtomicClockReferenced, b.acquisitionEnd.isAtomicClockReferenced );
      num( "pose.rotation.w", a.pose.rotation.w, b.pose.rotation.w );
      num( "pose.rotation.x", a.pose.rotation.x, b.pose.rotation.x );
      num( "pose.rotation.y", a.pose.rotation.y, b.pose.rotation.y );
      num( "pose.rotation.z", a.pose.rotation.z, b.pose.rotation.z );
      num( "pose.translation.x", a.pose.translation.x, b.pose.translation.x );
      num( "pose.translation.y", a.pose.translation.y, b.pose.translation.y );
      num( "pose.translation.z", a.pose.translation.z, b.pose.translation.z );
      i64( "rowMinimum", a.indexBounds.rowMinimum, b.indexBounds.rowMinimum );
      i64( "rowMaximum", a.indexBounds.rowMaximum, b.indexBounds.rowMaximum );
      i64( "columnMinimum", a.indexBounds.columnMinimum, b.indexBounds.columnMinimum );
      i64( "columnMaximum", a.indexBounds.columnMaximum, b.indexBounds.columnMaximum );
      i64( "returnMinimum", a.indexBounds.returnMinimum, b.indexBounds.returnMinimum );
      i64( "returnMaximum", a.indexBounds.returnMaximum, b.indexBounds.returnMaximum );
      num( "xMinimum", a.cartesianBounds.xMinimum, b.cartesianBounds.xMinimum );
      num( "xMaximum", a.cartesianBounds.xMaximum, b.cartesianBounds.xMaximum );
      num( "yMinimum", a.cartesianBounds.yMinimum, b.cartesianBounds.yMinimum );
      num( "yMaximum", a.cartesianBounds.yMaximum, b.cartesianBounds.yMaximum );
      num( "zMinimum", a.cartesianBounds.zMinimum, b.cartesianBounds.zMinimum );
      num( "zMaximum", a.cartesianBounds.zMaximum, b.cartesianBounds.zMaximum );
      num( "rangeMinimum", a.sphericalBounds.rangeMinimum, b.sphericalBounds.rangeMinimum );
      num( "rangeMaximum", a.sphericalBounds.rangeMaximum, b.sphericalBounds.rangeMaximum );
      num( "elevationMinimum", a.sphericalBounds.elevationMinimum, b.sphericalBounds.elevationMinimum );
      num( "elevationMaximum", a.sphericalBounds.elevationMaximum, b.sphericalBounds.elevationMaximum );
      num( "azimuthStart", a.sphericalBounds.azimuthStart, b.sphericalBounds.azimuthStart );
      num( "azimuthEnd", a.sphericalBounds.azimuthEnd, b.sphericalBounds.azimuthEnd );
      num( "intensityMinimum", a.intensityLimits.intensityMinimum, b.intensityLimits.intensityMinimum );
      num( "intensityMaximum", a.intensityLimits.intensityMaximum, b.intensityLimits.intensityMaximum );
      num( "colorRedMinimum", a.colorLimits.colorRedMinimum, b.colorLimits.colorRedMinimum );
      num( "colorRedMaximum", a.colorLimits.colorRedMaximum, b.colorLimits.colorRedMaximum );
      num( "colorGreenMinimum", a.colorLimits.colorGreenMinimum, b.colorLimits.colorGreenMinimum );
      num( "colorGreenMaximum", a.colorLimits.colorGreenMaximum, b.colorLimits.colorGreenMaximum );
      num( "colorBlueMinimum", a.colorLimits.colorBlueMinimum, b.colorLimits.colorBlueMinimum );
      num( "colorBlueMaximum", a.colorLimits.colorBlueMaximum, b.colorLimits.colorBlueMaximum );
      str( "idElementName", a.pointGroupingSchemes.groupingByLine.idElementName, b.pointGroupingSchemes.groupingByLine.idElementName );
      i64( "groupsSize", a.pointGroupingSchemes.groupingByLine.groupsSize, b.pointGroupingSchemes.groupingByLine.groupsSize );
      i64( "pointCountSize", a.pointGroupingSchemes.groupingByLine.pointCountSize, b.pointGroupingSchemes.groupingByLine.pointCountSize );
      i64( "pointCount", int64_t( a.pointCount ), int64_t( b.pointCount ) );

      const auto &f = a.pointFields;
      const auto &q = b.pointFields;
      auto flag = [&]( const char *w, bool x, bool y ) {
         if ( x != y && d.empty() )
         {
            d = fmt( "field %s: %d became %d", w, x, y );
         }
      };
#define F( name ) flag( #name, f.name, q.name )
      F( cartesianXField );
      F( cartesianYField );
      F( cartesianZField );
      F( cartesianInvalidStateField );
      F( sphericalRangeField );
      F( sphericalAzimuthField );
      F( sphericalElevationField );
      F( sphericalInvalidStateField );
      F( rowIndexField );
      F( columnIndexField );
      F( returnIndexField );
      F( returnCountField );
      F( timeStampField );
      F( isTimeStampInvalidField );
      F( intensityField );
      F( isIntensityInvalidField );
      F( colorRedField );
      F( colorGreenField );
      F( colorBlueField );
      F( isColorInvalidField );
      F( normalXField );
      F( normalYField );
      F( normalZField );
#undef F
      if ( f.rowIndexField )
      {
         i64( "rowIndexMaximum", f.rowIndexMaximum, q.rowIndexMaximum );
      }
      if ( f.columnIndexField )
      {
         i64( "columnIndexMaximum", f.columnIndexMaximum, q.columnIndexMaximum );
      }
      if ( f.returnIndexField )
      {
         i64( "returnMaximum", f.returnMaximum, q.returnMaximum );
      }
      auto ax = [&]( const char *w, const Axis &x, vector<const vector<double> *> cols, NT type, double scale, double lo, double hi ) {
         i64( ( string( w ) + " node type" ).c_str(), int( x.type ), int( type ) );
         if ( x.type == NT::ScaledInteger )
         {
            num( ( string( w ) + " scale" ).c_str(), x.scale, scale );
         }
         double min = x.min, max = x.max;
         if ( !x.given )
         {
            // computed from the values: the smallest and the largest
            min = INFINITY;
            max = -INFINITY;
            for ( auto *c : cols )
            {
               for ( double v : *c )
               {
                  min = std::min( min, v );
                  max = std::max( max, v );
               }
            }
            if ( s.n == 0 )
            {
               min = max = 0;
            }
            min = std::floor( min / x.scale + .5 ) * x.scale;
            max = std::floor( max / x.scale + .5 ) * x.scale;
         }
         else if ( x.type == NT::Float )
         {
            min = std::max( min, double( e57::FLOAT_MIN ) );
            max = std::min( max, double( e57::FLOAT_MAX ) );
         }
         num( ( string( w ) + " minimum" ).c_str(), min, lo );
         num( ( string( w ) + " maximum" ).c_str(), max, hi );
      };
      if ( f.cartesianXField || f.sphericalRangeField )
      {
         ax( "point", s.point, { &s.x, &s.y, &s.z, &s.range }, q.pointRangeNodeType, q.pointRangeScale, q.pointRangeMinimum, q.pointRangeMaximum );
      }
      if ( f.sphericalAzimuthField )
      {
         ax( "angle", s.angle, { &s.az, &s.el }, q.angleNodeType, q.angleScale, q.angleMinimum, q.angleMaximum );
      }
      if ( f.timeStampField )
      {
         Axis t = s.time;
         if ( t.type == NT::Float || t.type == NT::Double )
         {
            // the range of floating point time stamps isn't recorded
            t.min = t.type == NT::Float ? double( e57::FLOAT_MIN ) : -DMAX;
            t.max = -t.min;
         }
         ax( "time", t, { &s.time_ }, q.timeNodeType, q.timeScale, q.timeMinimum, q.timeMaximum );
      }
      if ( f.intensityField )
      {
         i64( "intensity node type", int( s.inten.type ), int( q.intensityNodeType ) );
         if ( s.inten.type == NT::ScaledInteger )
         {
            num( "intensity scale", s.inten.scale, q.intensityScale );
         }
      }
      return d;
   }

   // read all points of a scan in blocks and compare
   template <class T> void readPoints( e57::Reader &rd, int64_t at, Scan &s, Rng &r )
   {
      const size_t n = s.n;
      const size_t cap = r.chance( 1, 3 ) ? n + r.below( 3 ) : 1 + r.below( n + 2 );
      const size_t c = n > 2000 && cap < 100 ? 100 + r.below( n ) : cap;
      e57::Data3D h;
      MON_CHECK( rd.ReadData3D( at, h ), "scan-not-read", "" );
      std::unique_ptr<Bufs<T>> own;
      std::unique_ptr<e57::Data3DPointsData_t<T>> lib;
      e57::Data3DPointsData_t<T> *p;
      e57::PointStandardizedFieldsAvailable pf = h.pointFields;
      bool libOk = true;
      if ( r.chance( 1, 2 ) && libOk )
      {
         h.pointCount = c;
         lib.reset( new e57::Data3DPointsData_t<T>( h ) );
         p = lib.get();
      }
      else
      {
         if ( r.chance( 1, 3 ) )
         {
            // only some of the fields
            e57::Data3DPointsData_t<T> none;
            unsigned left = 0;
            bool *all[] = { &pf.cartesianXField, &pf.cartesianYField, &pf.cartesianZField, &pf.cartesianInvalidStateField, &pf.sphericalRangeField, &pf.sphericalAzimuthField,
                            &pf.sphericalElevationField, &pf.sphericalInvalidStateField, &pf.rowIndexField, &pf.columnIndexField, &pf.returnIndexField, &pf.returnCountField,
                            &pf.timeStampField, &pf.isTimeStampInvalidField, &pf.intensityField, &pf.isIntensityInvalidField, &pf.colorRedField, &pf.colorGreenField,
                            &pf.colorBlueField, &pf.isColorInvalidField, &pf.normalXField, &pf.normalYField, &pf.normalZField };
            const auto full = pf;
            for ( bool *b : all )
            {
               *b = *b && r.chance( 1, 2 );
               left += *b;
            }
            if ( left == 0 )
            {
               pf = full;
            }
         }
         own.reset( new Bufs<T>( s, pf, c ) );
         p = &own->p;
      }
      e57::CompressedVectorReader cr = rd.SetUpData3DPointsData( at, c, *p );
      size_t k = 0;
      for ( ;; )
      {
         const unsigned got = cr.read();
         MON_CHECK( got == std::min( c, n - k ), "points-missing", fmt( "read() gave %u at %zu of %zu, capacity %zu", got, k, n, c ) );
         if ( got == 0 )
         {
            break;
         }
         eachField( pf, *p, s, [&]( const char *name, bool on, auto *&ptr, auto &vec ) {
            for ( size_t j = 0; on && j < got; j++ )
            {
               double want = double( static_cast<typename std::remove_reference<decltype( *ptr )>::type>( vec[k + j] ) );
               if ( !s.dbl && sizeof( T ) == 8 )
               {
                  // written from floats, read as doubles: what the stored integer stands for
                  const Axis *a = strncmp( name, "cartesian", 9 ) == 0 || strcmp( name, "sphericalRange" ) == 0                     ? &s.point
                                  : strcmp( name, "sphericalAzimuth" ) == 0 || strcmp( name, "sphericalElevation" ) == 0 ? &s.angle
                                                                                                                          : nullptr;
                  if ( a && a->type == NT::ScaledInteger && sizeof( *ptr ) == 8 )
                  {
                     want = std::floor( want / a->scale + .5 ) * a->scale;
                  }
               }
               const double is = double( ptr[j] );
               if ( !same( want, is ) && !( want == 0 && is == 0 ) )
               {
                  mon::fail( "point-value-changed", fmt( "%s of point %zu of %zu: %.17g became %.17g; %s", name, k + j, n, want, is, s.shape.c_str() ) );
               }
            }
            mon::count( "values compared", on ? got : 0 );
         } );
         k += got;
      }
      cr.close();
   }

   inline void readScan( e57::Reader &rd, int64_t at, Scan &s, Rng &r )
   {
      e57::Data3D h;
      MON_CHECK( rd.ReadData3D( at, h ), "scan-not-read", "" );
      const string d = headerDiff( s, h );
      MON_CHECK( d.empty(), "scan-header-changed", d + "; " + s.shape );
      int64_t row, col, pts, gs, cs;
      bool bycol;
      MON_CHECK( rd.GetData3DSizes( at, row, col, pts, gs, cs, bycol ), "sizes-not-read", "" );
      const auto &gl = s.h.pointGroupingSchemes.groupingByLine;
      MON_CHECK( pts == int64_t( s.n ), "size-points", fmt( "%" PRId64 " of %zu", pts, s.n ) );
      MON_CHECK( gs == int64_t( s.gid.size() ) && cs == gl.pointCountSize && bycol == ( gl.idElementName == "columnIndex" ), "size-groups",
                 fmt( "%" PRId64 " %" PRId64 " %d", gs, cs, bycol ) );
      const auto &ib = s.h.indexBounds;
      if ( ib.rowMinimum || ib.rowMaximum )
      {
         MON_CHECK( row == ib.rowMaximum - ib.rowMinimum + 1, "size-rows", fmt( "%" PRId64, row ) );
      }
      else if ( !s.gid.empty() )
      {
         MON_CHECK( row == ( bycol ? cs : gl.groupsSize ), "size-rows", fmt( "%" PRId64, row ) );
      }
      if ( ib.columnMinimum || ib.columnMaximum )
      {
         MON_CHECK( col == ib.columnMaximum - ib.columnMinimum + 1, "size-columns", fmt( "%" PRId64, col ) );
      }
      else if ( !s.gid.empty() )
      {
         MON_CHECK( col == ( bycol ? gl.groupsSize : cs ), "size-columns", fmt( "%" PRId64, col ) );
      }
      auto groups = [&] {
         if ( !s.gid.empty() )
         {
            const size_t m = s.gid.size();
            std::unique_ptr<int64_t[]> id( new int64_t[m] ), st( new int64_t[m] ), ct( new int64_t[m] );
            MON_CHECK( rd.ReadData3DGroupsData( at, m, id.get(), st.get(), ct.get() ), "groups-not-read", "" );
            for ( size_t k = 0; k < m; k++ )
            {
               MON_CHECK( id[k] == s.gid[k] && st[k] == s.gstart[k] && ct[k] == s.gcount[k], "group-changed",
                          fmt( "group %zu of %zu: %" PRId64 " %" PRId64 " %" PRId64 " became %" PRId64 " %" PRId64 " %" PRId64, k, m, s.gid[k], s.gstart[k], s.gcount[k], id[k], st[k], ct[k] ) );
            }
            mon::count( "groups compared", m );
         }
      };
      if ( r.chance( 1, 2 ) )
      {
         groups();
      }
      if ( s.n > 0 )
      {
         // in the other precision, if all values can be
         bool fits = true;
         for ( auto *c : { &s.x, &s.y, &s.z, &s.range, &s.az, &s.el } )
         {
            for ( double v : *c )
            {
               fits = fits && ( std::isnan( v ) || std::fabs( v ) <= double( e57::FLOAT_MAX ) );
            }
         }
         const bool other = fits && r.chance( 1, 4 );
         mon::count( "readings in the other precision", other );
         if ( s.dbl != other )
         {
            readPoints<double>( rd, at, s, r );
         }
         else
         {
            readPoints<float>( rd, at, s, r );
         }
      }
      groups();
   }

   // ------------------------------------------------------------------ images
   struct Image
   {
      e57::Image2D h;
      e57::Image2DProjection proj = e57::ProjectionVisual;
      e57::Image2DType type = e57::ImageJPEG;
      bytes data, mask;
      string shape;
   };
   inline Image image( Gen &gen )
   {
      Rng &r = gen.r;
      Image im;
      auto &h = im.h;
      h.guid = r.chance( 1, 5 ) ? string() : gen.g.text( 30 );
      h.name = gen.text( 30 );
      h.description = gen.text( 100 );
      h.associatedData3DGuid = gen.text( 40 );
      h.sensorVendor = gen.text( 10 );
      h.sensorModel = gen.text( 10 );
      h.sensorSerialNumber = gen.text( 10 );
      h.acquisitionDateTime = gen.when();
      h.pose = gen.pose();
      im.proj = r.pick( vector<e57::Image2DProjection>{ e57::ProjectionVisual, e57::ProjectionPinhole, e57::ProjectionSpherical, e57::ProjectionCylindrical } );
      im.type = r.chance( 1, 2 ) ? e57::ImageJPEG : e57::ImagePNG;
      im.data = gen.g.binary( 1 + r.below( r.chance( 1, 8 ) ? 20000 : r.chance( 1, 2 ) ? 1100 : r.chance( 1, 4 ) ? 3 : 50 ) );
      if ( r.chance( 1, 3 ) )
      {
         im.mask = gen.g.binary( 1 + r.below( r.chance( 1, 8 ) ? 3 : 2000 ) );
      }
      auto num = [&] { return r.chance( 1, 4 ) ? gen.g.finiteDouble() : r.unit() * 10; };
      auto side = [&] { return int32_t( r.chance( 1, 5 ) ? r.range( INT32_MIN, INT32_MAX ) : r.range( 0, 5000 ) ); };
      auto common = [&]( auto &rep ) {
         ( im.type == e57::ImageJPEG ? rep.jpegImageSize : rep.pngImageSize ) = int64_t( im.data.size() );
         rep.imageMaskSize = int64_t( im.mask.size() );
         rep.imageWidth = side();
         rep.imageHeight = side();
      };
      switch ( im.proj )
      {
         case e57::ProjectionVisual:
            common( h.visualReferenceRepresentation );
            break;
         case e57::ProjectionPinhole:
         {
            auto &p = h.pinholeRepresentation;
            common( p );
            p.focalLength = num();
            p.pixelWidth = num();
            p.pixelHeight = num();
            p.principalPointX = num();
            p.principalPointY = num();
            break;
         }
         case e57::ProjectionSpherical:
         {
            auto &p = h.sphericalRepresentation;
            common( p );
            p.pixelWidth = num();
            p.pixelHeight = num();
            break;
         }
         default:
         {
            auto &p = h.cylindricalRepresentation;
            common( p );
            p.pixelWidth = num();
            p.pixelHeight = num();
            p.radius = num();
            p.principalPointY = num();
         }
      }
      const bool dist = r.chance( 1, 3 );
      if ( dist )
      {
         h.pinholeCameraDistortionExt.reset( new e57::Extension::PinholeCameraDistortion );
         auto &e = *h.pinholeCameraDistortionExt;
         e.cameraNumber = r.chance( 1, 3 ) ? 0 : int64_t( r.below( r.chance( 1, 4 ) ? INT64_MAX : 10 ) );
         e.type = gen.text( 15 );
         for ( double *v : { &e.CV_K1, &e.CV_K2, &e.CV_K3, &e.CV_K4, &e.CV_K5, &e.CV_K6, &e.CV_P1, &e.CV_P2, &e.CV_CX, &e.CV_CY, &e.CV_FX, &e.CV_FY } )
         {
            *v = num();
         }
         e.CV_HEIGHT = decltype( e.CV_HEIGHT )( r.below( 5000 ) );
         e.CV_WIDTH = decltype( e.CV_WIDTH )( r.below( 5000 ) );
      }
      im.shape = fmt( "p%d t%d mask%d dist%d", int( im.proj ), int( im.type ), !im.mask.empty(), dist );
      return im;
   }
   inline int64_t writeImage( e57::Writer &w, Image &im, Rng &r )
   {
      bytes d = im.data, m = im.mask;
      const string guid = im.h.guid;
      int64_t at;
      auto pieces = [&]( e57::Image2DType t, bytes &b ) {
         // all bytes in pieces, in any order
         vector<std::pair<size_t, size_t>> p;
         for ( size_t k = 0; k < b.size(); )
         {
            const size_t n = std::min( b.size() - k, r.chance( 1, 2 ) ? b.size() : 1 + r.below( b.size() ) );
            p.emplace_back( k, n );
            k += n;
         }
         for ( size_t k = p.size(); k > 1; k-- )
         {
            std::swap( p[k - 1], p[r.below( k )] );
         }
         for ( auto &x : p )
         {
            std::unique_ptr<char[]> exact( new char[x.second] );
            memcpy( exact.get(), &b[x.first], x.second );
            const int64_t n = w.WriteImage2DData( at, t, im.proj, exact.get(), int64_t( x.first ), int64_t( x.second ) );
            MON_CHECK( n == int64_t( x.second ), "image-bytes-not-written", fmt( "%" PRId64 " of %zu", n, x.second ) );
         }
      };
      if ( r.chance( 1, 3 ) )
      {
         // one call; the number of images before is the index of this one
         at = w.GetRawImages2D().childCount();
         const int64_t n = w.WriteImage2DData( im.h, im.type, im.proj, 0, &d[0], int64_t( d.size() ) );
         MON_CHECK( n == int64_t( d.size() ), "image-bytes-not-written", fmt( "%" PRId64 " of %zu", n, d.size() ) );
      }
      else
      {
         at = w.NewImage2D( im.h );
         if ( !m.empty() && r.chance( 1, 2 ) )
         {
            pieces( e57::ImageMaskPNG, m );
            m.clear();
         }
         pieces( im.type, d );
      }
      if ( !m.empty() )
      {
         pieces( e57::ImageMaskPNG, m );
      }
      MON_CHECK( guid.empty() ? !im.h.guid.empty() : im.h.guid == guid, "guid-changed", im.h.guid );
      if ( guid.empty() )
      {
         generated( im.h.guid, "image" );
      }
      return at;
   }
   inline string imageDiff( const e57::Image2D &a, const e57::Image2D &b )
   {
#define S( f )                                                                                     \
   if ( a.f != b.f )                                                                               \
   return fmt( #f ": %s became %s", mon::quote( a.f ).c_str(), mon::quote( b.f ).c_str() )
#define N( f )                                                                                     \
   if ( !( a.f == b.f ) )                                                                          \
   return fmt( #f ": %.17g became %.17g", double( a.f ), double( b.f ) )
      S( guid );
      S( name );
      S( description );
      S( associatedData3DGuid );
      S( sensorVendor );
      S( sensorModel );
      S( sensorSerialNumber );
      N( acquisitionDateTime.dateTimeValue );
      N( acquisitionDateTime.isAtomicClockReferenced );
      N( pose.rotation.w );
      N( pose.rotation.x );
      N( pose.rotation.y );
      N( pose.rotation.z );
      N( pose.translation.x );
      N( pose.translation.y );
      N( pose.translation.z );
#define REP( p )                                                                                   \
   N( p.jpegImageSize );                                                                           \
   N( p.pngImageSize );                                                                            \
   N( p.imageMaskSize );                                                                           \
   N( p.imageWidth );                                                                              \
   N( p.imageHeight )
      REP( visualReferenceRepresentation );
      REP( pinholeRepresentation );
      REP( sphericalRepresentation );
      REP( cylindricalRepresentation );
#undef REP
      N( pinholeRepresentation.focalLength );
      N( pinholeRepresentation.pixelWidth );
      N( pinholeRepresentation.pixelHeight );
      N( pinholeRepresentation.principalPointX );
      N( pinholeRepresentation.principalPointY );
      N( sphericalRepresentation.pixelWidth );
      N( sphericalRepresentation.pixelHeight );
      N( cylindricalRepresentation.pixelWidth );
      N( cylindricalRepresentation.pixelHeight );
      N( cylindricalRepresentation.radius );
      N( cylindricalRepresentation.principalPointY );
      const auto *x = a.pinholeCameraDistortionExt.get(), *y = b.pinholeCameraDistortionExt.get();
      if ( !x != !y )
      {
         return fmt( "distortion: %d became %d", !!x, !!y );
      }
      if ( x )
      {
#define E( f )                                                                                     \
   if ( !( x->f == y->f ) )                                                                        \
   return fmt( "distortion " #f ": %.17g became %.17g", double( x->f ), double( y->f ) )
         E( cameraNumber );
         if ( x->type != y->type )
         {
            return "distortion type: " + mon::quote( x->type ) + " became " + mon::quote( y->type );
         }
         E( CV_K1 );
         E( CV_K2 );
         E( CV_K3 );
         E( CV_K4 );
         E( CV_K5 );
         E( CV_K6 );
         E( CV_P1 );
         E( CV_P2 );
         E( CV_CX );
         E( CV_CY );
         E( CV_FX );
         E( CV_FY );
         E( CV_HEIGHT );
         E( CV_WIDTH );
#undef E
      }
#undef S
#undef N
      return "";
   }
   inline void readImage( e57::Reader &rd, int64_t at, const Image &im, Rng &r )
   {
      e57::Image2D h;
      MON_CHECK( rd.ReadImage2D( at, h ), "image-not-read", "" );
      const string d = imageDiff( im.h, h );
      MON_CHECK( d.empty(), "image-header-changed", d + "; " + im.shape );
      e57::Image2DProjection proj;
      e57::Image2DType type, maskType, visual;
      int64_t w, ht, size;
      MON_CHECK( rd.GetImage2DSizes( at, proj, type, w, ht, size, maskType, visual ), "image-sizes-not-read", "" );
      MON_CHECK( proj == im.proj && type == im.type && size == int64_t( im.data.size() ), "image-sizes",
                 fmt( "projection %d type %d size %" PRId64 "; %s %zu", int( proj ), int( type ), size, im.shape.c_str(), im.data.size() ) );
      MON_CHECK( ( maskType == e57::ImageMaskPNG ) == !im.mask.empty(), "image-mask-type", fmt( "%d", int( maskType ) ) );
      const int32_t ww = im.proj == e57::ProjectionVisual      ? im.h.visualReferenceRepresentation.imageWidth
                         : im.proj == e57::ProjectionPinhole   ? im.h.pinholeRepresentation.imageWidth
                         : im.proj == e57::ProjectionSpherical ? im.h.sphericalRepresentation.imageWidth
                                                               : im.h.cylindricalRepresentation.imageWidth;
      const int32_t hh = im.proj == e57::ProjectionVisual      ? im.h.visualReferenceRepresentation.imageHeight
                         : im.proj == e57::ProjectionPinhole   ? im.h.pinholeRepresentation.imageHeight
                         : im.proj == e57::ProjectionSpherical ? im.h.sphericalRepresentation.imageHeight
                                                               : im.h.cylindricalRepresentation.imageHeight;
      MON_CHECK( w == ww && ht == hh, "image-dimensions", fmt( "%" PRId64 " x %" PRId64, w, ht ) );
      auto contents = [&]( e57::Image2DType t, const bytes &want ) {
         for ( int k = 0; k < 3; k++ )
         {
            const size_t start = k == 0 ? 0 : r.below( want.size() );
            const size_t n = k == 0 ? want.size() : 1 + r.below( want.size() - start );
            std::unique_ptr<char[]> b( new char[n] );
            const int64_t got = rd.ReadImage2DData( at, im.proj, t, b.get(), int64_t( start ), int64_t( n ) );
            MON_CHECK( got == int64_t( n ), "image-bytes-not-read", fmt( "%" PRId64 " of %zu", got, n ) );
            MON_CHECK( memcmp( b.get(), &want[start], n ) == 0, "image-bytes-changed", fmt( "%zu+%zu of %zu; %s", start, n, want.size(), im.shape.c_str() ) );
            mon::count( "image bytes compared", n );
         }
      };
      contents( im.type, im.data );
      if ( !im.mask.empty() )
      {
         contents( e57::ImageMaskPNG, im.mask );
      }
   }
} // namespace simple
