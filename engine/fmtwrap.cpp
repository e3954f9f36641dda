// Entry points for the analysis of the position formats: never linked, never executed.
#include "position.hpp"
#include "cshogi.h"
#include "book.hpp"
#define W extern "C" __attribute__((used, noinline))
W void f_toSfen(const Position& p, std::string* r) { *r = p.toSFEN(); }
W void f_toCsa(const Position& p, std::string* r) { *r = p.toCSAPos(); }
W void f_toHcp(const Position& p, u8* d) { p.toHuffmanCodedPos(d); }
W void f_toPsfen(const Position& p, u8* d) { p.toPackedSfen(d); }
W void f_set(Position& p, const std::string& s) { p.set(s); }
W void f_setHcp(Position& p, const char* d) { p.set_hcp(d); }
W void f_setPsfen(Position& p, const char* d) { p.set_psfen(d); }
W void f_setPieces(Position& p, const Piece* b, const int (*h)[HandPieceNum]) { p.set(b, h); }
W void f_setTurn(Position& p, int c) { p.setTurn((Color)c); }
W void f_setPiece(Position& p, int pc, int sq) { p.setPiece((Piece)pc, (Square)sq); }
W void f_setHandP(Position& p, int pc, int n) { p.setHand((Piece)pc, n); }
W void f_setHandH(Position& p, int hp, int c, int n) { p.setHand((HandPiece)hp, (Color)c, n); }
W void f_clear(Position& p) { p.clear(); }
W void f_initHcp() { HuffmanCodedPos::init(); }
W void f_initPsfen() { PackedSfen::init(); }
W u8 f_getBit(BitStream& b) { return b.getBit(); }
W void f_putBit(BitStream& b, u8 v) { b.putBit(v); }
W u8 f_getBits(BitStream& b, int n) { return b.getBits(n); }
W void f_putBits(BitStream& b, u8 v, int n) { b.putBits(v, n); }
W Key f_boardKey(const Position& p) { return p.computeBoardKey(); }
W Key f_handKey(const Position& p) { return p.computeHandKey(); }
W Key f_bookKey(const Position& p) { return Book::bookKey(p); }
