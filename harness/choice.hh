// Explicit choice points: explore(bound,f) runs f for every sequence of answers
// of Choice::pick in which at most `bound` answers differ from the default 0.
#pragma once
#include <cstddef>
#include <vector>
namespace H {
  struct Choice {
    std::vector<int> made, width; size_t pos{0};
    int pick( int n ) {
      if ( pos == made.size() ) { made.push_back(0); width.push_back(n); }
      width[pos] = n;
      return made[pos++];
    }
  };
  template <class F> void explore( int bound, F && f ) {
    Choice c;
    while ( true ) {
      c.pos = 0; f( c ); c.made.resize( c.pos ); c.width.resize( c.pos );
      // next sequence in lexicographic order with at most `bound` non default answers
      while ( !c.made.empty() ) {
        size_t i = c.made.size()-1; int used = 0; for ( size_t j=0; j<i; ++j ) if ( c.made[j] ) ++used;
        if ( c.made[i]+1 < c.width[i] && used+1 <= bound ) { ++c.made[i]; break; }
        c.made.pop_back(); c.width.pop_back();
      }
      if ( c.made.empty() ) return;
    }
  }
}
