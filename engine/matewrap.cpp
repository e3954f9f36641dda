// Entry points for the analysis of the fixed-depth mate searches: never linked, never executed.
#include "position.hpp"
#include "generateMoves.hpp"
#include "cshogi.h"
#define W extern "C" __attribute__((used, noinline))
W int w_mate(__Board* b, int ply) { return b->mateMove(ply); }
W bool w_isMate(__Board* b, int ply) { return b->is_mate(ply); }
W ExtMove w_ext() { return ExtMove(); }
