// Entry points for the analysis of the rules: never linked, never executed.
#include "position.hpp"
#include "generateMoves.hpp"
#include "cshogi.h"
#define W extern "C" __attribute__((used, noinline))
W ExtMove* w_legal(ExtMove* l, const Position& p) { return generateMoves</*__LegalMoveList*/LegalAll>(l, p); }
W ExtMove* w_pseudo(ExtMove* l, const Position& p) { return generateMoves</*__PseudoLegalMoveList*/PseudoLegal>(l, p); }
W ExtMove* w_evasion(ExtMove* l, const Position& p) { return generateMoves<Evasion>(l, p); }
W ExtMove* w_checkall(ExtMove* l, const Position& p) { return generateMoves<CheckAll>(l, p); }
W ExtMove* w_check(ExtMove* l, const Position& p) { return generateMoves<Check>(l, p); }
W bool w_isLegal(const Position& p, u32 m, const Bitboard& pinned) { return p.pseudoLegalMoveIsLegal<false, false>(Move(m), pinned); }
W bool w_isPseudo(const Position& p, u32 m) { return p.moveIsPseudoLegal<false>(Move(m)); }
W bool w_moveIsLegal(const Position& p, u32 m) { return p.moveIsLegal(Move(m)); }
W bool w_inCheck(const Position& p) { return p.inCheck(); }
W u32 x_to(u32 m) { return Move(m).to(); }
W u32 x_from(u32 m) { return Move(m).from(); }
W u32 x_cap(u32 m) { return Move(m).cap(); }
W u32 x_ptFrom(u32 m) { return Move(m).pieceTypeFrom(); }
W u32 x_ptDropped(u32 m) { return Move(m).pieceTypeDropped(); }
W bool x_isDrop(u32 m) { return Move(m).isDrop(); }
W bool x_isProm(u32 m) { return Move(m).isPromotion() != 0; }
W u32 x_make(int pt, int from, int to, const Position& p) { return makeNonPromoteMove<Capture>((PieceType)pt, (Square)from, (Square)to, p).value(); }
W u32 x_makep(int pt, int from, int to, const Position& p) { return makePromoteMove<Capture>((PieceType)pt, (Square)from, (Square)to, p).value(); }
W u32 x_drop(int pt, int to) { return makeDropMove((PieceType)pt, (Square)to).value(); }
W u32 x_hand(int hp) { Hand h(0); h.plusOne((HandPiece)hp); return h.value(); }
W bool w_extLegal(const __Board& b, int m) { return b.moveIsLegal(m); }
W bool w_extPseudo(const __Board& b, int m) { return b.moveIsPseudoLegal(m); }
W int w_extCheck(const __Board& b) { return b.inCheck(); }
W u32 x_raw(int pt, int from, int to, int cap, int prom) { return pieceType2Move((PieceType)pt).value() + from2Move((Square)from).value() + to2Move((Square)to).value() + capturedPieceType2Move((PieceType)cap).value() + promoteFlag().value() * prom; }
W bool w_nyu(const __Board& b) { return b.is_nyugyoku(); }
W void w_push(__Board& b, u32 m, StateInfo& s) { b.pos.doMove(Move(m), s); }
W void w_find(Position& p) { p.findCheckers(); }
