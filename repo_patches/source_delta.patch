From 09abe7d06d69253580faa374fd6fbfb70023c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:58 +0000
Subject: [PATCH 1/5] fix: pop_pass restores the consecutive-check counters
 that push_pass cleared

---
 src/position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..3be2578 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -662,6 +662,8 @@ template <bool DO> void Position::doNullMove(StateInfo& backUpSt) {
     dst->boardKey = src->boardKey;
     dst->handKey = src->handKey;
     dst->pliesFromNull = src->pliesFromNull;
+    dst->continuousCheck[Black] = src->continuousCheck[Black];
+    dst->continuousCheck[White] = src->continuousCheck[White];
     dst->hand = hand(turn());
     turn_ = oppositeColor(turn());
 
-- 
2.43.0


From 23aea0d526ddf0b9b36c08fb8e7b7c813fe43897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:08 +0000
Subject: [PATCH 2/5] fix: set_position keeps the history until the new
 position is installed

---
 src/cshogi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..1657ea3 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -106,7 +106,6 @@ public:
         pos.set(sfen);
     }
     void set_position(const std::string& position) {
-        history.clear();
         std::istringstream ssPosCmd(position);
         std::string token;
         std::string sfen;
@@ -124,6 +123,7 @@ public:
         else
             throw std::runtime_error("incorrect position string");
 
+        history.clear();
         pos.set(sfen);
 
         while (ssPosCmd >> token) {
-- 
2.43.0


From 15d37d8847a913d9c0586be746e57d7721b649ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:08 +0000
Subject: [PATCH 3/5] fix: a malformed SFEN raises instead of aborting the
 interpreter

---
 cshogi/_cshogi.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cshogi/_cshogi.pyx b/cshogi/_cshogi.pyx
index 9a56bcb..02c3c48 100644
--- a/cshogi/_cshogi.pyx
+++ b/cshogi/_cshogi.pyx
@@ -260,7 +260,7 @@ cdef extern from "cshogi.h":
         __Board() except +
         __Board(const string& sfen) except +
         __Board(const __Board& board) except +
-        void set(const string& sfen)
+        void set(const string& sfen) except +
         void set_position(const string& position) except +
         void set_pieces(const int pieces[], const int pieces_in_hand[][7])
         void set_hcp(char* hcp) except +
-- 
2.43.0


From 5205fe97e01215cc038983bb2ed316a3a29b9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:03 +0000
Subject: [PATCH 4/5] fix: is_legal rejects impossible drops, promotions and
 captures

---
 src/position.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/position.cpp b/src/position.cpp
index 3be2578..831bdc5 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -347,6 +347,17 @@ bool Position::checkMoveIsEvasion(const Move move) const {
     return true;
 }
 
+namespace {
+    // us の pt が rank に居ると、行きどころが無いか。
+    bool isDeadEnd(const PieceType pt, const Color us, const Rank rank) {
+        switch (pt) {
+        case Pawn: case Lance: return rank == (us == Black ? Rank1 : Rank9);
+        case Knight:           return us == Black ? rank <= Rank2 : Rank8 <= rank;
+        default:               return false;
+        }
+    }
+}
+
 // Searching: true なら探索時に内部で生成した手の合法手判定を行う。
 //            ttMove で hash 値が衝突した時などで、大駒の不成など明らかに価値の低い手が生成される事がある。
 //            これは非合法手として省いて良い。
@@ -358,9 +369,16 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
 
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
+        // 持ち駒になる駒でなければ打てない。
+        if (ptFrom < Pawn || Gold < ptFrom)
+            return false;
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
 
+        // 行きどころの無い駒になる打ち手
+        if (!Searching && isDeadEnd(ptFrom, us, makeRank(to)))
+            return false;
+
         if (inCheck()) {
             // 王手されているので、合駒でなければならない。
             Bitboard target = checkersBB();
@@ -389,7 +407,11 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
     else {
         const Square from = move.from();
         const PieceType ptFrom = move.pieceTypeFrom();
-        if (piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to))
+        if (piece(from) == Empty || piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to))
+            return false;
+
+        // 取る駒が現在の局面と一致しなければならない。
+        if (!Searching && move.cap() != pieceToPieceType(piece(to)))
             return false;
 
         if (!attacksFrom(ptFrom, us, from).isSet(to))
@@ -434,6 +456,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
                     return false;
             }
         }
+        else if (move.isPromotion()) {
+            // 成れない駒と、敵陣に関係しない成り
+            if (Gold <= ptFrom || !canPromote(us, from, to))
+                return false;
+        }
+        else if (isDeadEnd(ptFrom, us, makeRank(to)))
+            // 行きどころの無い駒になる不成
+            return false;
 
         if (inCheck()) {
             if (ptFrom == King) {
-- 
2.43.0


From ca76cca59b74401e92ce5cb149a65343b1989810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:03 +0000
Subject: [PATCH 5/5] fix: a USI drop with trailing characters is not a move

---
 src/usi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/usi.cpp b/src/usi.cpp
index ea87588..78a0420 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -69,7 +69,7 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
             return Move::moveNone();
         const File toFile = charUSIToFile(moveStr[2]);
         const Rank toRank = charUSIToRank(moveStr[3]);
-        if (!isInSquare(toFile, toRank))
+        if (!isInSquare(toFile, toRank) || moveStr[4] != '\0')
             return Move::moveNone();
         const Square to = makeSquare(toFile, toRank);
         move = makeDropMove(ptTo, to);
-- 
2.43.0

