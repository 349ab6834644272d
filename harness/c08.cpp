// C08: what is read does not depend on how it is read.
#include "api.h"
#include "ref.h"
using namespace api;

// one open reader with its own way of reading
struct Session
{
   const Node *m;
   vector<Leaf> lv;           // all fields
   vector<size_t> fields;     // those read, in the order designated
   size_t cap = 0, at = 0, nSets = 1, set = 0;
   vector<vector<std::unique_ptr<Buf>>> bufs; // [set][position]
   vector<vector<e57::SourceDestBuffer>> sdbs;
   std::unique_ptr<e57::CompressedVectorReader> rd;
   string desc;
   int zeros = 0;

   Session( const ImageFile &imf, e57::CompressedVectorNode cv, const Node &model, Rng &r ) : m( &model ), lv( model::leaves( *model.proto ) )
   {
      const size_t n = size_t( m->records );
      switch ( r.below( 5 ) )
      {
         case 0:
            cap = n;
            break;
         case 1:
            cap = 1 + r.below( std::min<size_t>( n, 7 ) );
            break;
         case 2:
            cap = n + 1 + r.below( 30 );
            break;
         default:
            cap = 1 + r.below( n + 3 );
      }
      if ( n > 3000 && cap < 40 )
      {
         cap = 40 + r.below( 500 );
      }
      for ( size_t k = 0; k < lv.size(); k++ )
      {
         fields.push_back( k );
      }
      for ( size_t k = fields.size(); k > 1; k-- )
      {
         std::swap( fields[k - 1], fields[r.below( k )] );
      }
      if ( r.chance( 2, 3 ) )
      {
         fields.resize( 1 + r.below( fields.size() ) );
      }
      nSets = r.chance( 1, 3 ) ? 2 + r.below( 2 ) : 1;
      bufs.resize( nSets );
      sdbs.resize( nSets );
      desc = fmt( "cap %zu fields", cap );
      for ( size_t f : fields )
      {
         Plan p = r.pick( exactPlans( *lv[f].node, m->cols[f], false ) );
         p.strideMul = r.chance( 1, 3 ) ? 1 + r.below( 6 ) : 1;
         mon::distinct( "transfer", fmt( "%s:%s", model::tname( lv[f].node->type ), p.str().c_str() ) );
         if ( desc.size() < 150 )
         {
            desc += fmt( " %zu:%s", f, p.str().c_str() );
         }
         for ( size_t s = 0; s < nSets; s++ )
         {
            bufs[s].emplace_back( new Buf( p.mem, cap, p.strideMul, p.conv, p.scal ) );
            sdbs[s].push_back( bufs[s].back()->sdb( imf, lv[f].path ) );
         }
      }
      rd.reset( new e57::CompressedVectorReader( cv.reader( sdbs[0] ) ) );
      mon::count( "readers opened" );
   }
   bool finished() const
   {
      return zeros > 0;
   }
   void step( Rng &r )
   {
      for ( auto &s : bufs )
      {
         for ( auto &b : s )
         {
            b->wipe();
         }
      }
      const size_t n = size_t( m->records );
      const size_t was = set;
      set = r.below( nSets );
      const bool anew = set != was || r.chance( 1, 6 );
      const unsigned got = anew ? rd->read( sdbs[set] ) : rd->read();
      MON_CHECK( got == std::min( cap, n - at ), "block-not-filled", fmt( "read() returned %u at %zu of %zu, capacity %zu; %s", got, at, n, cap, desc.c_str() ) );
      for ( size_t j = 0; j < fields.size(); j++ )
      {
         const size_t f = fields[j];
         for ( size_t s = 0; s < nSets; s++ )
         {
            Buf &b = *bufs[s][j];
            if ( s == set )
            {
               for ( unsigned k = 0; k < got; k++ )
               {
                  const string d = mismatch( b, k, *lv[f].node, m->cols[f], at + k );
                  if ( !d.empty() )
                  {
                     mon::fail( "value-depends-on-reading", fmt( "record %zu of %zu field %s: %s; %s", at + k, n, lv[f].path.c_str(), d.c_str(), desc.c_str() ) );
                  }
               }
               mon::count( "values compared", got );
            }
            const string dm = b.damage();
            MON_CHECK( dm.empty(), "gap-touched", dm );
            // nothing else was written
            for ( size_t k = s == set ? got : 0; k < cap; k++ )
            {
               bool same = true;
               if ( b.mem == STR )
               {
                  same = b.strs[k] == "<canary>";
               }
               else
               {
                  for ( size_t q = k * b.stride; q < k * b.stride + memSize( b.mem ); q++ )
                  {
                     same = same && b.store[q] == Buf::canary( q );
                  }
               }
               if ( !same )
               {
                  mon::fail( "element-beyond-count-touched", fmt( "element %zu after read() returned %u, set %zu (used %zu); %s", k, got, s, set, desc.c_str() ) );
               }
            }
            mon::count( "untouched elements checked", s == set ? cap - got : cap );
         }
      }
      at += got;
      if ( got == 0 )
      {
         zeros++;
      }
   }
};

struct Source
{
   std::unique_ptr<char[]> mem;
   std::unique_ptr<ImageFile> imf;
   std::unique_ptr<Session> open;
};

// readers of several sources of the same data, advanced in random order
static void interleave( mon::Ctx &c, vector<Source> &src, const Node &root )
{
   Rng &r = c.rng;
   size_t made = 0;
   const size_t n = src.size() + 1 + r.below( 3 );
   for ( ;; )
   {
      Source &s = src[r.below( src.size() )];
      size_t active = 0;
      for ( auto &x : src )
      {
         active += x.open != nullptr;
      }
      if ( made >= n && active == 0 )
      {
         return;
      }
      if ( !s.open )
      {
         if ( made < n )
         {
            made++;
            const Node &m = root.kids[r.below( root.kids.size() )];
            if ( m.type != T::CompressedVector || m.records == 0 || m.cols.empty() )
            {
               continue;
            }
            s.open.reset( new Session( *s.imf, e57::CompressedVectorNode( s.imf->root().get( m.name ) ), m, r ) );
            mon::note( s.open->desc );
            mon::distinct( "readers open at once", std::to_string( active + 1 ) );
         }
         continue;
      }
      const unsigned steps = 1 + unsigned( r.below( 4 ) );
      for ( unsigned k = 0; k < steps; k++ )
      {
         s.open->step( r );
         mon::count( "blocks read" );
      }
      if ( r.chance( 1, 10 ) )
      {
         // other accesses in between
         for ( auto &k : root.kids )
         {
            if ( k.type == T::Blob && !k.blob.empty() )
            {
               bytes b( k.blob.size(), 0 );
               e57::BlobNode( s.imf->root().get( k.name ) ).read( reinterpret_cast<uint8_t *>( &b[0] ), 0, b.size() );
               MON_CHECK( b == k.blob, "blob-depends-on-reading", k.name );
            }
         }
      }
      if ( s.open->finished() || r.chance( 1, 40 ) )
      {
         if ( s.open->finished() && r.chance( 1, 3 ) )
         {
            s.open->step( r ); // still at the end
         }
         s.open->rd->close();
         s.open.reset();
      }
   }
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   Node root( T::Structure, "" );
   const unsigned n = 1 + unsigned( r.below( 3 ) );
   size_t total = 0;
   for ( unsigned k = 0; k < n; k++ )
   {
      const size_t recs = r.chance( 1, 10 ) ? 10000 + r.below( 40000 ) : r.chance( 1, 3 ) ? r.below( 4000 ) : 1 + r.below( 300 );
      const unsigned fields = recs > 5000 ? 1 + unsigned( r.below( 3 ) ) : r.chance( 1, 10 ) ? 8 + unsigned( r.below( 20 ) ) : 1 + unsigned( r.below( 5 ) );
      root.kids.push_back( g.compressedVector( fmt( "cv%u", k ), fields, r.chance( 1, 3 ), recs, {}, r.chance( 1, 4 ) ? int( r.below( 5 ) ) : -1 ) );
      total += recs;
   }
   Node b( T::Blob, "blob" );
   b.blob = g.binary( r.below( 3000 ) );
   root.kids.push_back( b );
   const string path = c.path( "c08.e57" );
   const bool foreign = r.chance( 1, 2 );
   if ( foreign )
   {
      ref::Synth syn( r );
      syn.maxPacket = r.chance( 1, 3 ) ? 65536 : 300 + r.below( r.chance( 1, 2 ) ? 600 : 20000 ) / 4 * 4;
      mon::spew( path, syn.file( root ) );
   }
   else
   {
      ImageFile imf( path, "w" );
      Builder bd( imf, r );
      bd.populate( imf.root(), root );
      bd.writeBlobs();
      for ( auto &p : bd.cvs )
      {
         writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, r, true );
      }
      if ( r.chance( 1, 4 ) )
      {
         vector<Source> own( 1 );
         own[0].imf.reset( new ImageFile( imf ) );
         interleave( c, own, root ); // before closing
         mon::count( "read before closing" );
      }
      imf.close();
   }
   const bytes phys = mon::slurp( path );
   const e57::ReadChecksumPolicy policies[] = { e57::ChecksumPolicy::ChecksumNone, e57::ChecksumPolicy::ChecksumSparse, e57::ChecksumPolicy::ChecksumHalf,
                                                e57::ChecksumPolicy::ChecksumAll };
   vector<Source> src( 1 + r.below( 4 ) );
   for ( auto &x : src )
   {
      const auto pol = r.pick( policies );
      const bool memory = r.chance( 1, 2 );
      mon::distinct( "source", fmt( "%s policy %d %s", memory ? "memory" : "file", int( pol ), foreign ? "foreign" : "own" ) );
      if ( memory )
      {
         x.mem.reset( new char[phys.size()] ); // exact extent
         memcpy( x.mem.get(), phys.data(), phys.size() );
         x.imf.reset( new ImageFile( x.mem.get(), phys.size(), pol ) );
      }
      else
      {
         x.imf.reset( new ImageFile( path, "r", pol ) );
      }
   }
   for ( int pass = 0; pass < 2; pass++ )
   {
      interleave( c, src, root );
   }
   for ( auto &x : src )
   {
      x.imf->close();
      MON_CHECK( !x.mem || memcmp( x.mem.get(), phys.data(), phys.size() ) == 0, "reading-changed-the-buffer", "" );
   }
   MON_CHECK( mon::slurp( path ) == phys, "reading-changed-the-file", "" );
   string key;
   for ( auto &k : root.kids )
   {
      key += fmt( "%zu/%" PRIu64 ";", k.cols.size(), k.records );
   }
   mon::distinct( "case", key );
   mon::sample( fmt( "case %ld: %s %s", c.caseNo, foreign ? "foreign" : "own", key.c_str() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C08";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
