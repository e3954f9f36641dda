// Entry points for the analysis only: never linked into a program, never executed.
// Compiled to LLVM bitcode with -fno-access-control so that private members resolve.
#include "cshogi.h"
#include "parser.h"
#define W extern "C" __attribute__((used, noinline))
W void w_doMove(Position* p, u32 m, StateInfo* s, const CheckInfo* ci, bool chk) { p->doMove(Move(m), *s, *ci, chk); }
W void w_undoMove(Position* p, u32 m) { p->undoMove(Move(m)); }
W void w_pass(Position* p, StateInfo* s) { p->doNullMove<true>(*s); }
W void w_unpass(Position* p, StateInfo* s) { p->doNullMove<false>(*s); }
W u64 w_keyAfter(const Position* p, u32 m) { return p->getKeyAfter(Move(m)); }
W u64 w_boardKeyAfter(const Position* p, u32 m) { return p->getBoardKeyAfter(Move(m)); }
W u64 w_bookKeyAfter(const Position* p, u64 k, u32 m) { return Book::bookKeyAfter(*p, k, Move(m)); }
W u64 w_bookKey(const Position* p) { return Book::bookKey(*p); }
W u64 w_computeBoardKey(const Position* p) { return p->computeBoardKey(); }
W u64 w_computeHandKey(const Position* p) { return p->computeHandKey(); }
W u64 w_getKey(const Position* p) { return p->getKey(); }
W void w_initZobrist() { Position::initZobrist(); }
W void w_setPiece(Position* p, Piece pc, Square sq) { p->setPiece(pc, sq); }
W bool w_pseudo(const Position* p, u32 m) { return p->moveIsPseudoLegal<false>(Move(m)); }
W bool w_pseudoSearching(const Position* p, u32 m) { return p->moveIsPseudoLegal<true>(Move(m)); }
W bool w_nyugyoku(const Position* p) { return nyugyoku(*p); }
// what the encoders of moves produce
W u32 e_moveTo(u32 m) { return Move(m).to(); }
W u32 e_moveFrom(u32 m) { return Move(m).from(); }
W bool e_isDrop(u32 m) { return Move(m).isDrop(); }
W u32 e_ptFrom(u32 m) { return Move(m).pieceTypeFrom(); }
W u32 e_ptTo(u32 m) { return Move(m).pieceTypeTo(); }
W u32 e_ptDropped(u32 m) { return Move(m).pieceTypeDropped(); }
W u32 e_cap(u32 m) { return Move(m).cap(); }
W bool e_isProm(u32 m) { return Move(m).isPromotion(); }
W u32 e_numOf(u32 h, HandPiece hp) { return Hand(h).numOf(hp); }
W u32 e_exists(u32 h, HandPiece hp) { return Hand(h).exists(hp); }
W u32 e_plusOne(u32 h, HandPiece hp) { Hand x(h); x.plusOne(hp); return x.value(); }
W u32 e_minusOne(u32 h, HandPiece hp) { Hand x(h); x.minusOne(hp); return x.value(); }
W u32 e_orEqual(u32 h, int n, HandPiece hp) { Hand x(h); x.orEqual(n, hp); return x.value(); }
#define E_T(P) W u32 e_numOfT_##P(u32 h) { return Hand(h).numOf<P>(); } W u32 e_existsT_##P(u32 h) { return Hand(h).exists<P>(); }
E_T(HPawn) E_T(HLance) E_T(HKnight) E_T(HSilver) E_T(HGold) E_T(HBishop) E_T(HRook)
W u32 w_move(const __Board* b, int from, int to, bool prom) { return b->move(from, to, prom); }
W u32 w_drop(const __Board* b, int to, int pt) { return b->drop_move(to, pt); }
W u32 w_move16(const __Board* b, u16 m) { return b->move_from_move16(m); }
W u32 w_movepsv(const __Board* b, u16 m) { return b->move_from_psv(m); }
// generators
template <MoveType MT> static inline ExtMove* gen(ExtMove* l, const Position* p) { return generateMoves<MT>(l, *p); }
W ExtMove* g_Capture(ExtMove* l, const Position* p) { return generateMoves<Capture>(l, *p); }
W ExtMove* g_NonCapture(ExtMove* l, const Position* p) { return generateMoves<NonCapture>(l, *p); }
W ExtMove* g_Drop(ExtMove* l, const Position* p) { return generateMoves<Drop>(l, *p); }
W ExtMove* g_CapturePlusPro(ExtMove* l, const Position* p) { return generateMoves<CapturePlusPro>(l, *p); }
W ExtMove* g_NonCaptureMinusPro(ExtMove* l, const Position* p) { return generateMoves<NonCaptureMinusPro>(l, *p); }
W ExtMove* g_NonEvasion(ExtMove* l, const Position* p) { return generateMoves<NonEvasion>(l, *p); }
W ExtMove* g_Evasion(ExtMove* l, const Position* p) { return generateMoves<Evasion>(l, *p); }
W ExtMove* g_Legal(ExtMove* l, const Position* p) { return generateMoves<Legal>(l, *p); }
W ExtMove* g_LegalAll(ExtMove* l, const Position* p) { return generateMoves<LegalAll>(l, *p); }
W ExtMove* g_Recapture(ExtMove* l, const Position* p, Square sq) { return generateMoves<Recapture>(l, *p, sq); }
W ExtMove* g_CheckAll(ExtMove* l, const Position* p) { return generateMoves<CheckAll>(l, *p); }
W ExtMove* g_Check(ExtMove* l, const Position* p) { return generateMoves<Check>(l, *p); }
// keep whole class reachable
W void k_board(__Board* b) { new (b) __Board("x"); }
