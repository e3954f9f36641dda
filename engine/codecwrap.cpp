// Entry points for the analysis of the move encodings and notations: never linked, never executed.
#include "cshogi.h"
#define W extern "C" __attribute__((used, noinline))
// accessors (core and Python-facing)
W u32 x_to(u32 m) { return Move(m).to(); }
W u32 x_from(u32 m) { return Move(m).from(); }
W u32 x_cap(u32 m) { return Move(m).cap(); }
W u32 x_ptFrom(u32 m) { return Move(m).pieceTypeFrom(); }
W u32 x_ptTo(u32 m) { return Move(m).pieceTypeTo(); }
W u32 x_ptDropped(u32 m) { return Move(m).pieceTypeDropped(); }
W u32 x_hpDropped(u32 m) { return Move(m).handPieceDropped(); }
W bool x_isDrop(u32 m) { return Move(m).isDrop(); }
W bool x_isProm(u32 m) { return Move(m).isPromotion() != 0; }
W bool x_isCapture(u32 m) { return Move(m).isCapture(); }
W bool x_isCaptureOrPromotion(u32 m) { return Move(m).isCaptureOrPromotion(); }
W u32 x_ptFromOrDropped(u32 m) { return Move(m).pieceTypeFromOrDropped(); }
W int y_to(int m) { return __move_to(m); }
W int y_from(int m) { return __move_from(m); }
W int y_cap(int m) { return __move_cap(m); }
W bool y_isProm(int m) { return __move_is_promotion(m); }
W bool y_isDrop(int m) { return __move_is_drop(m); }
W int y_ptFrom(int m) { return __move_from_piece_type(m); }
W int y_hpDropped(int m) { return __move_drop_hand_piece(m); }
W u16 y_move16(int m) { return __move16(m); }
W u16 y_fromPsv(u16 m) { return __move16_from_psv(m); }
W u16 y_toPsv(u16 m) { return __move16_to_psv(m); }
W int y_rotate(int m) { return __move_rotate(m); }
W int y_label(int m, int c) { return __dlshogi_make_move_label(m, c); }
W int y_pieceType(int p) { return __piece_to_piece_type(p); }
W int y_handPieceType(int h) { return __hand_piece_to_piece_type(h); }
W int y_file(int s) { return __make_file(s); }
W int y_rank(int s) { return __make_rank(s); }
// encoders
W u32 z_move(const __Board* b, int from, int to, bool prom) { return b->move(from, to, prom); }
W u32 z_drop(const __Board* b, int to, int pt) { return b->drop_move(to, pt); }
W u32 z_move16(const __Board* b, u16 m) { return b->move_from_move16(m); }
W u32 z_psv(const __Board* b, u16 m) { return b->move_from_psv(m); }
// text
W void t_usi(std::string* o, u32 m) { new (o) std::string(Move(m).toUSI()); }
W void t_csa(std::string* o, u32 m) { new (o) std::string(Move(m).toCSA()); }
W void t_usi2(std::string* o, int m) { new (o) std::string(__move_to_usi(m)); }
W void t_csa2(std::string* o, int m) { new (o) std::string(__move_to_csa(m)); }
W u32 t_fromUsi(const __Board* b, const std::string* s) { return b->move_from_usi(*s); }
W u32 t_fromCsa(const __Board* b, const std::string* s) { return b->move_from_csa(*s); }
