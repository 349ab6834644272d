// C01: point records written to a file are read back unchanged.
#include "api.h"
using namespace api;

static void checkRecords( const ImageFile &imf, e57::CompressedVectorNode cv, const Node &m, Rng &r, const string &wdesc )
{
   auto lv = model::leaves( *m.proto );
   MON_CHECK( cv.childCount() == int64_t( m.records ), "record-count", fmt( "%" PRId64 " vs %" PRIu64, cv.childCount(), m.records ) );
   if ( m.records == 0 || lv.empty() )
   {
      return;
   }
   // all fields, any representation that can hold the values
   const size_t n = m.records;
   const size_t cap = r.chance( 1, 2 ) ? n : 1 + r.below( n + 20 );
   const size_t nSets = r.chance( 1, 4 ) ? 2 : 1;
   vector<vector<std::unique_ptr<Buf>>> sets( nSets );
   vector<vector<e57::SourceDestBuffer>> sdbs( nSets );
   vector<size_t> order( lv.size() );
   string desc = fmt( "read cap %zu:", cap );
   for ( size_t k = 0; k < lv.size(); k++ )
   {
      order[k] = k;
      Plan p = r.pick( exactPlans( *lv[k].node, m.cols[k], false ) );
      p.strideMul = r.chance( 1, 4 ) ? 1 + r.below( 5 ) : 1;
      for ( auto &set : sets )
      {
         set.emplace_back( new Buf( p.mem, cap, p.strideMul, p.conv, p.scal ) );
      }
      if ( k < 4 )
      {
         desc += " " + p.str();
      }
      mon::distinct( "transfer", fmt( "r:%s:%s", model::tname( lv[k].node->type ), p.str().c_str() ) );
   }
   mon::note( desc );
   for ( size_t k = order.size(); k > 1; k-- )
   {
      std::swap( order[k - 1], order[r.below( k )] );
   }
   for ( size_t s = 0; s < nSets; s++ )
   {
      for ( size_t k : order )
      {
         sdbs[s].push_back( sets[s][k]->sdb( imf, lv[k].path ) );
      }
   }
   e57::CompressedVectorReader rd = cv.reader( sdbs[0] );
   size_t at = 0, set = 0;
   for ( ;; )
   {
      for ( auto &any : sets )
      {
         for ( auto &b : any )
         {
            b->wipe();
         }
      }
      const size_t was = set;
      set = r.below( nSets );
      auto &bufs = sets[set];
      const unsigned got = set != was ? rd.read( sdbs[set] ) : rd.read();
      MON_CHECK( got == std::min( cap, n - at ), "read-count", fmt( "read() returned %u at %zu of %zu, capacity %zu", got, at, n, cap ) );
      if ( got == 0 )
      {
         break;
      }
      for ( size_t k = 0; k < lv.size(); k++ )
      {
         for ( unsigned j = 0; j < got; j++ )
         {
            string d = mismatch( *bufs[k], j, *lv[k].node, m.cols[k], at + j );
            mon::count( "values compared" );
            if ( !d.empty() )
            {
               mon::fail( fmt( "value-changed:%s", model::tname( lv[k].node->type ) ),
                          fmt( "record %zu of %zu field %s [%" PRId64 "..%" PRId64 "]: %s (%s; %s)", at + j, n, lv[k].path.c_str(),
                               lv[k].node->imin, lv[k].node->imax, d.c_str(), wdesc.c_str(), desc.c_str() ) );
            }
         }
         string dm = bufs[k]->damage();
         MON_CHECK( dm.empty(), "foreign-bytes-touched", dm );
      }
      at += got;
   }
   rd.close();
}

static void run( mon::Ctx &c )
{
   Rng &r = c.rng;
   model::Gen g( r );
   const int shape = int( r.below( 20 ) );
   vector<Node> cvs;
   const unsigned nCv = shape == 0 ? 3 : shape < 5 ? 2 : 1;
   // a target amount of data: mostly small, sometimes several packets, seldom many
   for ( unsigned k = 0; k < nCv; k++ )
   {
      unsigned fields = 1 + unsigned( r.below( 6 ) );
      size_t recs = r.below( 300 );
      if ( shape >= 16 )
      {
         recs = 2000 + r.below( 12000 );
         fields = 1 + unsigned( r.below( 3 ) );
      }
      if ( shape == 15 )
      {
         recs = 40000 + r.below( c.thorough ? 400000 : 80000 );
         fields = 1 + unsigned( r.below( 3 ) );
      }
      if ( shape == 14 )
      {
         fields = 20 + unsigned( r.below( 40 ) );
         recs = r.below( 1200 );
      }
      if ( shape == 13 )
      {
         recs = r.below( 3 );
      }
      if ( shape == 12 && r.chance( 1, 4 ) )
      {
         // enough packets to cycle the reader's packet cache
         recs = 400000 + r.below( 300000 );
         fields = 1 + unsigned( r.below( 2 ) );
      }
      cvs.push_back( g.compressedVector( fmt( "cv%u", k ), fields, r.chance( 1, 3 ), recs, {}, r.chance( 1, 4 ) ? int( r.below( 5 ) ) : -1 ) );
      if ( shape == 11 )
      {
         // strings beyond the size of a packet
         for ( auto &col : cvs.back().cols )
         {
            for ( size_t j = 0; j < 3 && !col.s.empty(); j++ )
            {
               col.s[r.below( col.s.size() )] = g.binary( r.below( r.chance( 1, 2 ) ? 70000 : r.chance( 1, 12 ) ? 5000000 : 300000 ) );
            }
         }
      }
   }
   if ( shape == 10 && r.chance( 1, 2 ) )
   {
      cvs.push_back( g.packetEdge( "edge" ) );
   }
   const string path = c.path( "c01.e57" );
   vector<string> wdesc;
   string shapeKey;
   {
      ImageFile imf( path, "w" );
      Builder b( imf, r );
      for ( auto &m : cvs )
      {
         imf.root().set( m.name, b.full( m ) );
      }
      for ( auto &p : b.cvs )
      {
         wdesc.push_back( writeRecords( imf, e57::CompressedVectorNode( p.node ), *p.m, r ) );
         mon::note( wdesc.back() );
         shapeKey += fmt( "%zu/%" PRIu64 ";", p.m->cols.size(), p.m->records );
         for ( auto &l : model::leaves( *p.m->proto ) )
         {
            if ( l.node->type == T::Integer || l.node->type == T::Scaled )
            {
               mon::distinct( "bit width", fmt( "%s:%u", model::tname( l.node->type ), g.bitsNeeded( l.node->imin, l.node->imax ) ) );
               shapeKey += fmt( "%u,", g.bitsNeeded( l.node->imin, l.node->imax ) );
            }
         }
      }
      if ( r.chance( 1, 4 ) )
      {
         // finished sections can be read before the file is closed
         for ( size_t k = 0; k < b.cvs.size(); k++ )
         {
            checkRecords( imf, e57::CompressedVectorNode( b.cvs[k].node ), *b.cvs[k].m, r, "before close; " + wdesc[k] );
         }
      }
      imf.close();
   }
   ImageFile imf( path, "r" );
   for ( size_t k = 0; k < cvs.size(); k++ )
   {
      e57::CompressedVectorNode cv( imf.root().get( cvs[k].name ) );
      checkRecords( imf, cv, cvs[k], r, wdesc[k] );
   }
   imf.close();
   mon::distinct( "case", shapeKey );
   mon::sample( fmt( "case %ld: %s %s", c.caseNo, shapeKey.c_str(), wdesc[0].c_str() ) );
}

int main( int argc, char **argv )
{
   mon::Suite s;
   s.property = "C01";
   s.run = run;
   return mon::mainLoop( argc, argv, s );
}
