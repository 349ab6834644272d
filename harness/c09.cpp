// C09: number conversions deliver the right value or a documented error.
#include "api.h"
using namespace api;
typedef __float128 quad;

static quad qabs( quad q )
{
   return q < 0 ? -q : q;
}
static const quad kHuge = quad( 1 ) * 0x1p126Q;
// largest integer not above
static quad qfloor( quad q )
{
   if ( qabs( q ) >= quad( 0x1p100 ) )
   {
      return q;
   }
   __int128 i = __int128( q );
   return quad( i ) > q ? quad( i - 1 ) : quad( i );
}

// what is right for one value
struct Verdict
{
   enum Kind
   {
      Int,  // an integer within [lo,hi]
      Real, // within [lo,hi]
      Nan
   };
   Kind kind = Int;
   quad lo = 0, hi = 0;
   bool pass = true, fail = false; // which outcomes are right
   bool negZero = false;           // -0 must stay -0
   vector<e57::ErrorCode> codes;
   void refuse( e57::ErrorCode c, bool only = true )
   {
      fail = true;
      pass = pass && !only;
      codes.push_back( c );
   }
   bool accepts( double v ) const
   {
      if ( kind == Nan )
      {
         return std::isnan( v );
      }
      if ( std::isinf( v ) )
      {
         return v > 0 ? hi >= kHuge * kHuge : lo <= -kHuge * kHuge;
      }
      return quad( v ) >= lo && quad( v ) <= hi && !( negZero && !std::signbit( v ) );
   }
   bool accepts( int64_t v ) const
   {
      return quad( v ) >= lo && quad( v ) <= hi;
   }
   string str() const
   {
      string s = fmt( "[%.17g,%.17g] pass %d fail %d", double( lo ), double( hi ), pass, fail );
      for ( auto c : codes )
      {
         s += " " + e57::Utilities::errorCodeToString( c ).substr( 0, 60 );
      }
      return s;
   }
};
// integers reached by rounding something within tol of q
static void nearest( Verdict &v, quad q, quad tol )
{
   v.kind = Verdict::Int;
   v.lo = -qfloor( -( q - quad( 0.5 ) - tol ) );
   v.hi = qfloor( q + quad( 0.5 ) + tol );
}
// an integer which has to lie in a range
static void within( Verdict &v, int64_t lo, int64_t hi, e57::ErrorCode c )
{
   if ( v.lo < lo || v.hi > hi )
   {
      v.refuse( c, v.hi < lo || v.lo > hi );
   }
}

struct Val // a value in memory
{
   Mem mem;
   int64_t i = 0; // integers and bool
   double d = 0;  // reals
   string str() const
   {
      return mem == F32 || mem == F64 ? fmt( "%s %.17g", memName( mem ), d ) : fmt( "%s %" PRId64, memName( mem ), i );
   }
};
static bool isReal( Mem m )
{
   return m == F32 || m == F64;
}

// memory -> file
static Verdict onWrite( const Node &f, const Plan &p, const Val &x )
{
   Verdict v;
   if ( f.type == T::String )
   {
      v.refuse( e57::ErrorExpectingUString );
      return v;
   }
   if ( p.mem == STR )
   {
      v.refuse( e57::ErrorExpectingNumeric );
      return v;
   }
   if ( f.type == T::Float )
   {
      if ( !isReal( p.mem ) )
      {
         if ( !p.conv )
         {
            v.refuse( e57::ErrorConversionRequired );
            return v;
         }
         v.kind = Verdict::Real;
         v.lo = v.hi = f.single ? quad( float( x.i ) ) : quad( double( x.i ) );
         return v;
      }
      if ( std::isnan( x.d ) )
      {
         v.kind = Verdict::Nan;
         return v;
      }
      v.kind = Verdict::Real;
      v.negZero = x.d == 0 && std::signbit( x.d );
      if ( f.single && p.mem == F64 )
      {
         if ( std::fabs( x.d ) > double( FLT_MAX ) )
         {
            // what rounds to the largest number may as well be taken
            v.lo = x.d > 0 ? quad( FLT_MAX ) : -quad( FLT_MAX );
            v.hi = v.lo;
            v.refuse( e57::ErrorReal64TooLarge, std::isinf( float( x.d ) ) );
            return v;
         }
         v.lo = v.hi = quad( float( x.d ) );
         return v;
      }
      v.lo = v.hi = std::isinf( x.d ) ? ( x.d > 0 ? kHuge * kHuge : -kHuge * kHuge ) : quad( x.d );
      return v;
   }
   // integers
   const bool scaling = f.type == T::Scaled && p.scal;
   if ( ( isReal( p.mem ) || ( p.mem == BOOL && !scaling ) ) && !p.conv )
   {
      v.refuse( e57::ErrorConversionRequired );
      return v;
   }
   if ( scaling && !p.conv )
   {
      v.fail = true; // may be taken as a conversion, too
      v.codes.push_back( e57::ErrorConversionRequired );
   }
   if ( !scaling )
   {
      if ( isReal( p.mem ) )
      {
         if ( !( x.d >= -9223372036854775808.0 && x.d < 9223372036854775808.0 ) )
         {
            v.refuse( e57::ErrorValueNotRepresentable );
            return v;
         }
         v.lo = v.hi = quad( int64_t( x.d ) ); // a fraction is dropped
      }
      else
      {
         v.lo = v.hi = quad( x.i );
      }
      within( v, f.imin, f.imax, e57::ErrorValueOutOfBounds );
      return v;
   }
   if ( isReal( p.mem ) && !std::isfinite( x.d ) )
   {
      v.refuse( e57::ErrorScaledValueNotRepresentable );
      return v;
   }
   const quad s = quad( f.scale ), o = quad( f.offset ), y = isReal( p.mem ) ? quad( x.d ) : quad( x.i );
   const quad q = ( y - o ) / s;
   if ( qabs( y ) + qabs( o ) > quad( 1e307 ) )
   {
      v.fail = true; // may be out of reach on the way
      v.codes.push_back( e57::ErrorScaledValueNotRepresentable );
   }
   const quad tol = ( qabs( y ) + qabs( o ) ) * quad( 0x1p-51 ) / qabs( s ) + qabs( q ) * quad( 0x1p-50 ) + quad( 1e-9 );
   nearest( v, q, tol );
   within( v, INT64_MIN, INT64_MAX, e57::ErrorScaledValueNotRepresentable );
   if ( v.pass )
   {
      v.lo = v.lo < quad( INT64_MIN ) ? quad( INT64_MIN ) : v.lo;
      v.hi = v.hi > quad( INT64_MAX ) ? quad( INT64_MAX ) : v.hi;
      within( v, f.imin, f.imax, e57::ErrorValueOutOfBounds );
   }
   return v;
}

// file -> memory; raw is the stored integer or the bits of the stored real
static Verdict onRead( const Node &f, const Plan &p, int64_t raw )
{
   Verdict v;
   if ( f.type == T::String )
   {
      v.refuse( e57::ErrorExpectingUString );
      return v;
   }
   if ( p.mem == STR )
   {
      v.refuse( e57::ErrorExpectingNumeric );
      return v;
   }
   if ( f.type == T::Float )
   {
      const double d = f.single ? double( model::asFloat( raw ) ) : model::asDouble( raw );
      if ( !isReal( p.mem ) )
      {
         if ( !p.conv )
         {
            v.refuse( e57::ErrorConversionRequired );
            return v;
         }
         if ( p.mem == BOOL )
         {
            v.lo = v.hi = d != 0;
            if ( std::isnan( d ) )
            {
               v.lo = 0;
               v.refuse( e57::ErrorValueNotRepresentable, false );
            }
            return v;
         }
         int64_t lo, hi;
         memRange( p.mem, lo, hi );
         if ( !( quad( d ) > quad( lo ) - 1 && quad( d ) < quad( hi ) + 1 ) )
         {
            v.refuse( e57::ErrorValueNotRepresentable );
            return v;
         }
         v.lo = v.hi = quad( int64_t( d ) );
         if ( quad( d ) < quad( lo ) || quad( d ) > quad( hi ) )
         {
            v.refuse( e57::ErrorValueNotRepresentable, false );
         }
         return v;
      }
      if ( std::isnan( d ) )
      {
         v.kind = Verdict::Nan;
         return v;
      }
      v.kind = Verdict::Real;
      v.negZero = d == 0 && std::signbit( d );
      if ( p.mem == F32 && !f.single )
      {
         if ( std::fabs( d ) > double( FLT_MAX ) )
         {
            v.lo = d > 0 ? quad( FLT_MAX ) : -quad( FLT_MAX );
            v.hi = v.lo;
            v.refuse( e57::ErrorValueNotRepresentable, std::isinf( float( d ) ) );
            v.codes.push_back( e57::ErrorReal64TooLarge );
            return v;
         }
         v.lo = v.hi = quad( float( d ) );
         return v;
      }
      v.lo = v.hi = std::isinf( d ) ? ( d > 0 ? kHuge * kHuge : -kHuge * kHuge ) : quad( d );
      return v;
   }
   const bool scaling = f.type == T::Scaled && p.scal;
   if ( isReal( p.mem ) && !p.conv )
   {
      v.refuse( e57::ErrorConversionRequired );
      return v;
   }
   if ( !p.conv && ( scaling || p.mem == BOOL ) )
   {
      v.fail = true;
      v.codes.push_back( e57::ErrorConversionRequired );
   }
   if ( !scaling )
   {
      if ( p.mem == F32 )
      {
         v.kind = Verdict::Real;
         v.lo = v.hi = quad( float( raw ) );
      }
      else if ( p.mem == F64 )
      {
         v.kind = Verdict::Real;
         v.lo = v.hi = quad( double( raw ) );
      }
      else if ( p.mem == BOOL )
      {
         v.lo = v.hi = raw != 0;
      }
      else
      {
         int64_t lo, hi;
         memRange( p.mem, lo, hi );
         v.lo = v.hi = quad( raw );
         within( v, lo, hi, e57::ErrorValueNotRepresentable );
      }
      return v;
   }
   const quad m = quad( raw ) * quad( f.scale ), q = m + quad( f.offset );
   const quad tol = ( qabs( m ) + qabs( q ) ) * quad( 0x1p-51 ) + quad( 0x1p-1074 );
   if ( isReal( p.mem ) )
   {
      const quad top = p.mem == F32 ? quad( FLT_MAX ) : quad( DBL_MAX );
      const quad t = tol + ( p.mem == F32 ? qabs( q ) * quad( 0x1p-24 ) + quad( 0x1p-149 ) : quad( 0 ) );
      v.kind = Verdict::Real;
      v.lo = q - t;
      v.hi = q + t;
      if ( v.hi > top || v.lo < -top )
      {
         v.refuse( e57::ErrorScaledValueNotRepresentable, v.lo > top || v.hi < -top );
      }
      if ( p.mem == F64 && qabs( m ) > top )
      {
         v.fail = true; // out of reach on the way
         v.codes.push_back( e57::ErrorScaledValueNotRepresentable );
      }
      return v;
   }
   if ( p.mem == BOOL )
   {
      v.lo = qabs( q ) > quad( 0.5 ) + tol ? 1 : 0;
      v.hi = q == 0 ? 0 : 1;
      if ( qabs( q ) < tol )
      {
         v.hi = 1;
      }
      if ( qabs( m ) > quad( DBL_MAX ) )
      {
         v.refuse( e57::ErrorScaledValueNotRepresentable, false );
      }
      return v;
   }
   int64_t lo, hi;
   memRange( p.mem, lo, hi );
   nearest( v, q, tol + quad( 1e-9 ) );
   within( v, lo, hi, e57::ErrorScaledValueNotRepresentable );
   return v;
}

// ------------------------------------------------------------------ values
// numbers where something changes
static double edge( Rng &r )
{
   static const double base[] = { 0,    1,    127,   128,   255,   256,  32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 0x1p53, 0x1p62, 0x1p63,
                                  0x1p64, 1e19, 1e30, 3.4028234663852886e38, 0x1p128, 1e39, 1e300, 1.7976931348623157e308, 1e-45, 1e-320, 0x1p-149, 0x1p-150, 16777216, 16777217 };
   double d = r.pick( base );
   switch ( r.below( 7 ) )
   {
      case 0:
         d += 0.5;
         break;
      case 1:
         d -= 0.5;
         break;
      case 2:
         d = std::nextafter( d, 1e308 );
         break;
      case 3:
         d = std::nextafter( d, -1e308 );
         break;
      case 4:
         d += 1;
         break;
      default:
         break;
   }
   return r.chance( 1, 2 ) ? d : -d;
}
static double anyReal( Rng &r, bool lively )
{
   switch ( r.below( lively ? 8 : 5 ) )
   {
      case 0:
         return r.unit() * 200 - 100;
      case 1:
         return double( r.range( -300, 300 ) ) / 2;
      case 2:
         return double( r.range( -40000, 40000 ) );
      case 3:
         return ( r.unit() * 2 - 1 ) * 1e6;
      case 4:
         return r.chance( 1, 2 ) ? -0.0 : 0.0;
      case 5:
         return r.pick( { double( NAN ), double( INFINITY ), -double( INFINITY ) } );
      default:
         return edge( r );
   }
}
static int64_t anyInt( Rng &r, int64_t lo, int64_t hi )
{
   switch ( r.below( 4 ) )
   {
      case 0:
         return r.range( lo, hi );
      case 1:
         return r.chance( 1, 2 ) ? lo : hi;
      case 2:
      {
         static const int64_t b[] = { 0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, INT32_MAX, int64_t( INT32_MAX ) + 1, INT32_MIN,
                                      int64_t( INT32_MIN ) - 1, UINT32_MAX, int64_t( UINT32_MAX ) + 1, INT64_MAX, INT64_MIN, ( 1LL << 53 ) + 1, ( 1LL << 24 ) + 1, INT64_MAX - 1 };
         return std::min( hi, std::max( lo, r.pick( b ) ) );
      }
      default:
         return std::min( hi, std::max( lo, r.range( -300, 300 ) ) );
   }
}
static Node field( Rng &r, model::Gen &g )
{
   Node f;
   switch ( r.below( 8 ) )
   {
      case 0:
      case 1:
         f = Node( T::Integer, "f" );
         break;
      case 2:
      case 3:
      case 4:
         f = Node( T::Scaled, "f" );
         f.scale = r.pick( { 1.0, 0.001, 0.5, 10.0, -1.0, -0.01, 1e-9, 1e9, 3.0, 0.1, 1e30, 1e-30, 2.0, 1e300, 0x1p-20 } );
         f.offset = r.chance( 1, 2 ) ? 0 : r.pick( { 1.0, -1.0, 0.5, 100.25, -1e6, 1e12, 1e-9, 3.7, 1e25, 0x1p62, -0x1p63 } );
         break;
      case 5:
         f = Node( T::Float, "f" );
         f.single = true;
         break;
      case 6:
         f = Node( T::Float, "f" );
         break;
      default:
         f = Node( r.chance( 1, 3 ) ? T::String : T::Integer, "f" );
   }
   f.fmin = f.single ? -double( FLT_MAX ) : -DBL_MAX;
   f.fmax = -f.fmin;
   f.imin = INT64_MIN;
   f.imax = INT64_MAX;
   if ( r.chance( 1, 3 ) )
   {
      g.range( unsigned( r.below( 65 ) ), f.imin, f.imax );
   }
   if ( r.chance( 1, 10 ) )
   {
      f.imin = f.imax = anyInt( r, INT64_MIN, INT64_MAX );
   }
   f.iv = std::min( f.imax, std::max<int64_t>( f.imin, 0 ) );
   return f;
}
static e57::CompressedVectorNode makeCv( const ImageFile &imf, const Node &f, bool second )
{
   e57::StructureNode proto( imf );
   if ( f.type == T::Integer )
   {
      proto.set( "f", e57::IntegerNode( imf, f.iv, f.imin, f.imax ) );
   }
   else if ( f.type == T::Scaled )
   {
      proto.set( "f", e57::ScaledIntegerNode( imf, f.iv, f.imin, f.imax, f.scale, f.offset ) );
   }
   else if ( f.type == T::Float )
   {
      proto.set( "f", e57::FloatNode( imf, 0, f.single ? e57::PrecisionSingle : e57::PrecisionDouble ) );
   }
   else
   {
      proto.set( "f", e57::StringNode( imf, "" ) );
   }
   if ( second )
   {
      proto.set( "n", e57::IntegerNode( imf, 0, 0, 1000000 ) );
   }
   e57::CompressedVectorNode cv( imf, proto, e57::VectorNode( imf, true ) );
   imf.root().set( "cv", cv );
   return cv;
}
static Plan anyPlan( Rng &r )
{
   Plan p;
   p.mem = Mem( r.below( r.chance( 1, 8 ) ? 11 : 10 ) );
   p.conv = r.chance( 3, 4 );
   p.scal = r.chance( 1, 2 );
   p.strideMul = 1 + r.below( 2 );
   return p;
}
static string about( const Node &f, const Plan &p )
{
   string s = model::tname( f.type );
   if ( f.type == T::Scaled )
   {
      s += fmt( " *%g+%g", f.scale, f.offset );
   }
   if ( f.type == T::Float )
   {
      s += f.single ? " single" : " double";
   }
   if ( f.type == T::Integer || f.type == T::Scaled )
   {
      s += fmt( " %" PRId64 "..%" PRId64, f.imin, f.imax );
   }
   return s + " " + p.str();
}
static bool listed( const vector<e57::ErrorCode> &c, int code )
{
   return std::find( c.begin(), c.end(), e57::ErrorCode( code ) ) != c.end();
}
static string gotStr( const Buf &b, size_t k )
{
   return isReal( b.mem ) ? fmt( "%.17g", b.getReal( k ) ) : fmt( "%" PRId64, b.getInt( k ) );
}

// ------------------------------------------------------------------ writing
static void writing( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   const Node f = field( r, g );
   const Plan p = anyPlan( r );
   const size_t n = r.chance( 1, 10 ) ? 100 + r.below( 400 ) : 1 + r.below( 20 );
   const string path = c.path( "c09.e57" );
   const bool second = r.chance( 1, 3 );
   const string what = "write " + about( f, p );
   mon::note( what );
   // values: all of them transferable, or a bad one somewhere
   const bool clean = r.chance( 2, 3 );
   vector<Val> vals;
   vector<Verdict> want;
   for ( size_t k = 0; k < n; k++ )
   {
      Val x;
      Verdict v;
      for ( unsigned t = 0; t < 40; t++ )
      {
         x.mem = p.mem;
         if ( isReal( p.mem ) )
         {
            x.d = anyReal( r, true );
            if ( f.type == T::Scaled && p.scal && r.chance( 1, 2 ) )
            {
               x.d = double( anyInt( r, f.imin, f.imax ) ) * f.scale + f.offset + ( r.chance( 1, 3 ) ? f.scale / 2 : 0 );
            }
            else if ( f.type != T::Float && r.chance( 1, 2 ) )
            {
               x.d = double( anyInt( r, f.imin, f.imax ) ) + ( r.chance( 1, 3 ) ? 0.75 : 0 );
            }
            if ( p.mem == F32 )
            {
               x.d = double( float( x.d ) );
            }
         }
         else if ( p.mem != STR )
         {
            int64_t lo, hi;
            memRange( p.mem, lo, hi );
            if ( f.type == T::Integer && r.chance( 3, 4 ) && std::max( lo, f.imin ) <= std::min( hi, f.imax ) )
            {
               lo = std::max( lo, f.imin );
               hi = std::min( hi, f.imax );
            }
            x.i = anyInt( r, lo, hi );
         }
         v = onWrite( f, p, x );
         if ( v.pass || !clean )
         {
            break;
         }
      }
      vals.push_back( x );
      want.push_back( v );
      mon::distinct( "conversion", fmt( "w %s%s %s%s%s %s", model::tname( f.type ), f.type == T::Float && f.single ? "1" : "", memName( p.mem ), p.conv ? " c" : "", p.scal ? " s" : "",
                                        v.pass ? v.fail ? "either" : "value" : e57::Utilities::errorCodeToString( v.codes[0] ).c_str() ) );
   }
   size_t firstBad = n; // first that cannot pass
   for ( size_t k = 0; k < n && firstBad == n; k++ )
   {
      firstBad = want[k].pass ? n : k;
   }
   Buf b( p.mem, n, p.strideMul, p.conv, p.scal ), nb( I64, n );
   for ( size_t k = 0; k < n; k++ )
   {
      if ( p.mem == F32 )
      {
         b.put<float>( k, float( vals[k].d ) );
      }
      else if ( p.mem == F64 )
      {
         b.put<double>( k, vals[k].d );
      }
      else if ( p.mem == STR )
      {
         b.strs[k] = "12";
      }
      else
      {
         b.setInt( k, vals[k].i );
      }
      nb.put<int64_t>( k, int64_t( k ) );
   }
   bool closed = false, threw = false;
   {
      ImageFile imf( path, "w" );
      e57::CompressedVectorNode cv = makeCv( imf, f, second );
      vector<e57::SourceDestBuffer> sdbs;
      if ( second && r.chance( 1, 2 ) )
      {
         sdbs.push_back( nb.sdb( imf, "n" ) );
      }
      sdbs.push_back( b.sdb( imf, "f" ) );
      if ( second && sdbs.size() < 2 )
      {
         sdbs.push_back( nb.sdb( imf, "n" ) );
      }
      if ( p.mem == STR && f.type == T::String )
      {
         // nothing to convert
         return;
      }
      e57::CompressedVectorWriter w = cv.writer( sdbs );
      auto o = mon::attempt( [&] { w.write( n ); } );
      threw = o.threw;
      if ( !o.threw )
      {
         MON_CHECK( firstBad == n, "wrong-value-stored", fmt( "%s: %s was taken; right: %s", what.c_str(), vals[firstBad].str().c_str(), want[firstBad].str().c_str() ) );
      }
      else
      {
         vector<e57::ErrorCode> may;
         for ( size_t k = 0; k < n && k <= firstBad; k++ )
         {
            if ( want[k].fail )
            {
               may.insert( may.end(), want[k].codes.begin(), want[k].codes.end() );
            }
         }
         MON_CHECK( !may.empty(), "good-value-refused", what + ": " + o.str() );
         MON_CHECK( listed( may, o.code ), "other-error", what + ": " + o.str() + fmt( " value %s: %s", firstBad < n ? vals[firstBad].str().c_str() : "", firstBad < n ? want[firstBad].str().c_str() : "" ) );
         mon::count( "refusals on writing" );
      }
      closed = !mon::attempt( [&] {
                   w.close();
                   imf.close();
                } ).threw;
      MON_CHECK( closed || threw, "not-closed", what );
   }
   if ( !closed || !mon::exists( path ) )
   {
      return;
   }
   // what is in the file
   ImageFile imf( path, "r" );
   e57::CompressedVectorNode cv( imf.root().get( "cv" ) );
   const uint64_t stored = uint64_t( cv.childCount() );
   MON_CHECK( threw ? stored <= n : stored == n, "record-count", fmt( "%" PRIu64 " of %zu", stored, n ) );
   if ( stored == 0 || f.type == T::String )
   {
      imf.close();
      return;
   }
   Buf back( naturalPlan( f ).mem, size_t( stored ) );
   vector<e57::SourceDestBuffer> sdbs{ back.sdb( imf, "f" ) };
   e57::CompressedVectorReader rd = cv.reader( sdbs );
   const unsigned got = rd.read();
   MON_CHECK( got == stored, "records-read", fmt( "%u of %" PRIu64, got, stored ) );
   for ( size_t k = 0; k < got; k++ )
   {
      MON_CHECK( want[k].pass && ( isReal( back.mem ) ? want[k].accepts( back.getReal( k ) ) : want[k].accepts( back.getInt( k ) ) ), "wrong-value-stored",
                 fmt( "%s: %s became %s; right: %s", what.c_str(), vals[k].str().c_str(), gotStr( back, k ).c_str(), want[k].str().c_str() ) );
   }
   mon::count( "values stored with conversion", got );
   rd.close();
   imf.close();
   mon::distinct( "case", what );
   mon::sample( fmt( "%s: %s stored as %s", what.c_str(), vals[0].str().c_str(), gotStr( back, 0 ).c_str() ) );
}

// ------------------------------------------------------------------ reading
static void reading( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   const Node f = field( r, g );
   const size_t n = r.chance( 1, 10 ) ? 100 + r.below( 400 ) : 1 + r.below( 20 );
   const string path = c.path( "c09.e57" );
   vector<int64_t> raw( n );
   vector<string> texts( n, "7" );
   // values of moderate size pass more conversions
   const unsigned style = unsigned( r.below( 3 ) );
   for ( auto &x : raw )
   {
      if ( f.type == T::Float )
      {
         const double d = style == 0 ? double( r.range( -120, 120 ) ) / 4 : style == 1 ? double( r.range( 0, 70000 ) ) : anyReal( r, true );
         if ( f.single )
         {
            const float s = float( d );
            uint32_t u;
            memcpy( &u, &s, 4 );
            x = u;
         }
         else
         {
            memcpy( &x, &d, 8 );
         }
      }
      else
      {
         x = style == 0 ? std::min( f.imax, std::max( f.imin, r.range( -120, 120 ) ) ) : style == 1 ? std::min( f.imax, std::max<int64_t>( f.imin, r.range( 0, 70000 ) ) ) : anyInt( r, f.imin, f.imax );
      }
   }
   {
      ImageFile imf( path, "w" );
      e57::CompressedVectorNode cv = makeCv( imf, f, false );
      Buf b( naturalPlan( f ).mem, n );
      for ( size_t k = 0; k < n; k++ )
      {
         if ( b.mem == F32 )
         {
            b.put<uint32_t>( k, uint32_t( raw[k] ) );
         }
         else if ( b.mem == STR )
         {
            b.strs[k] = texts[k];
         }
         else
         {
            b.put<int64_t>( k, raw[k] );
         }
      }
      vector<e57::SourceDestBuffer> sdbs{ b.sdb( imf, "f" ) };
      e57::CompressedVectorWriter w = cv.writer( sdbs );
      w.write( n );
      w.close();
      imf.close();
   }
   ImageFile imf( path, "r" );
   const unsigned rounds = 12;
   for ( unsigned q = 0; q < rounds; q++ )
   {
      const Plan p = anyPlan( r );
      if ( p.mem == STR && f.type == T::String )
      {
         continue;
      }
      const string what = "read " + about( f, p );
      mon::note( what );
      Buf b( p.mem, n, p.strideMul, p.conv, p.scal );
      vector<Verdict> want;
      size_t firstBad = n;
      vector<e57::ErrorCode> may;
      for ( size_t k = 0; k < n; k++ )
      {
         want.push_back( onRead( f, p, raw[k] ) );
         if ( want[k].fail && firstBad == n )
         {
            may.insert( may.end(), want[k].codes.begin(), want[k].codes.end() );
         }
         if ( !want[k].pass && firstBad == n )
         {
            firstBad = k;
         }
         mon::distinct( "conversion", fmt( "r %s%s %s%s%s %s", model::tname( f.type ), f.type == T::Float && f.single ? "1" : "", memName( p.mem ), p.conv ? " c" : "", p.scal ? " s" : "",
                                           want[k].pass ? want[k].fail ? "either" : "value" : e57::Utilities::errorCodeToString( want[k].codes[0] ).c_str() ) );
      }
      const string before( b.store.get(), b.extent * ( p.mem != STR ) );
      e57::CompressedVectorNode cv( imf.root().get( "cv" ) );
      vector<e57::SourceDestBuffer> sdbs{ b.sdb( imf, "f" ) };
      unsigned got = 0;
      mon::Outcome o;
      {
         e57::CompressedVectorReader rd = cv.reader( sdbs );
         o = mon::attempt( [&] { got = rd.read(); } );
         mon::attempt( [&] { rd.close(); } );
      }
      auto text = [&]( size_t k ) { return f.type == T::Float ? fmt( "%.17g", f.single ? double( model::asFloat( raw[k] ) ) : model::asDouble( raw[k] ) ) : fmt( "%" PRId64, raw[k] ); };
      if ( o.threw )
      {
         MON_CHECK( !may.empty(), "good-value-refused", what + ": " + o.str() );
         MON_CHECK( listed( may, o.code ), "other-error", what + ": " + o.str() + fmt( " value %s", firstBad < n ? text( firstBad ).c_str() : "" ) );
         mon::count( "refusals on reading" );
         if ( p.mem != STR && firstBad < n )
         {
            const size_t at = firstBad * b.stride;
            MON_CHECK( before.compare( at, memSize( p.mem ), b.store.get() + at, memSize( p.mem ) ) == 0, "wrong-value-delivered",
                       fmt( "%s: %s was refused, but %s delivered", what.c_str(), text( firstBad ).c_str(), gotStr( b, firstBad ).c_str() ) );
         }
      }
      else
      {
         MON_CHECK( firstBad == n, "wrong-value-delivered",
                    fmt( "%s: %s became %s; right: %s", what.c_str(), text( firstBad ).c_str(), p.mem == STR ? "?" : gotStr( b, firstBad ).c_str(), want[firstBad].str().c_str() ) );
         MON_CHECK( got == n, "records-read", fmt( "%u of %zu", got, n ) );
         for ( size_t k = 0; k < n; k++ )
         {
            MON_CHECK( isReal( p.mem ) ? want[k].accepts( b.getReal( k ) ) : want[k].accepts( b.getInt( k ) ), "wrong-value-delivered",
                       fmt( "%s: %s became %s; right: %s", what.c_str(), text( k ).c_str(), gotStr( b, k ).c_str(), want[k].str().c_str() ) );
         }
         const string d = b.damage();
         MON_CHECK( d.empty(), "gap-overwritten", what + ": " + d );
         mon::count( "values delivered with conversion", n );
      }
      mon::distinct( "case", what );
   }
   imf.close();
}

// the scaled view of ScaledInteger elements
static void elements( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   ImageFile imf( c.path( "c09.e57" ), "w" );
   for ( unsigned k = 0; k < 30; k++ )
   {
      Node f = field( r, g );
      if ( f.type != T::Scaled )
      {
         continue;
      }
      f.iv = anyInt( r, f.imin, f.imax );
      e57::ScaledIntegerNode s( imf, f.iv, f.imin, f.imax, f.scale, f.offset );
      auto near = [&]( int64_t raw, double got, const char *what ) {
         const quad m = quad( raw ) * quad( f.scale ), q = m + quad( f.offset );
         const quad tol = ( qabs( m ) + qabs( q ) ) * quad( 0x1p-51 ) + quad( 0x1p-1074 );
         if ( q + tol > quad( DBL_MAX ) || q - tol < -quad( DBL_MAX ) )
         {
            return;
         }
         MON_CHECK( std::isfinite( got ) && quad( got ) >= q - tol && quad( got ) <= q + tol, "scaled-value",
                    fmt( "%s of %" PRId64 "*%g+%g: %.17g", what, raw, f.scale, f.offset, got ) );
         mon::count( "scaled views" );
      };
      near( f.iv, s.scaledValue(), "scaledValue" );
      near( f.imin, s.scaledMinimum(), "scaledMinimum" );
      near( f.imax, s.scaledMaximum(), "scaledMaximum" );
      // an element made from scaled numbers
      const double v = s.scaledValue();
      const quad q = ( quad( v ) - quad( f.offset ) ) / quad( f.scale );
      const quad tol = ( qabs( quad( v ) ) + qabs( quad( f.offset ) ) ) * quad( 0x1p-51 ) / qabs( quad( f.scale ) ) + qabs( q ) * quad( 0x1p-50 ) + quad( 1e-9 );
      const double lo = s.scaledMinimum(), hi = s.scaledMaximum();
      if ( !std::isfinite( v ) || !std::isfinite( lo ) || !std::isfinite( hi ) || qabs( q ) > quad( 9e18 ) || tol > quad( 0.4 ) )
      {
         continue;
      }
      auto o = mon::attempt( [&] {
         e57::ScaledIntegerNode t( imf, v, lo < hi ? lo : hi, lo < hi ? hi : lo, f.scale, f.offset );
         Verdict w;
         nearest( w, q, tol );
         MON_CHECK( w.accepts( t.rawValue() ), "scaled-constructor", fmt( "%.17g with *%g+%g became %" PRId64 "; right: %s", v, f.scale, f.offset, t.rawValue(), w.str().c_str() ) );
         mon::count( "scaled constructions" );
      } );
      mon::count( "scaled constructions refused", o.threw );
   }
   imf.cancel();
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C09";
   s.run = []( mon::Ctx &c ) {
      const unsigned k = unsigned( c.caseNo % 8 );
      k < 4 ? writing( c ) : k < 7 ? reading( c ) : elements( c );
   };
   return mon::mainLoop( argc, argv, s );
}
