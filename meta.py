#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, check=None, technique='', level='other', note='', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, check=check, technique=technique, level=level, note=note, na=na, state=state))

prop('P01', 'Taking back a move or a pass restores the position exactly',
 'For every position and every move the rules allow in it, making the move and then taking it back leaves every observable of the position as it was before: board, both hands, king squares, side to move, move number, position key, checking pieces and the repetition counters. The same holds for a pass and taking the pass back.',
 ['inputs', 'histories'], 'every position, every kind of move (drop, plain, capturing, promoting; both colours), any nesting',
 'The tests push and pop a few fixed games; the restoration must hold for each combination of mover, captured piece, promotion and colour on all 81 squares and for every field, including the ones only repetition detection reads.',
 ['src/position.cpp', 'src/position.hpp', 'src/hand.hpp'], [('make/unmake of a move', 'src/position.cpp Position::doMove, Position::undoMove'), ('pass', 'src/position.cpp Position::doNullMove')],
 check='p01', technique='abstract interpretation of LLVM IR (symbolic squares, disjunctive worklist)',
 note='Sound for the move classes enumerated (both colours x every moved, dropped and captured kind x promotion); squares, hands, keys and the rest of the board are symbolic, so no position is sampled.')
prop('P02', 'A move leads to exactly the position the rules say, in every view and key',
 'After any legal move, every way of looking at the position (piece on a square, set of squares per kind, per colour and of gold-movers, king squares, hands, side to move, move number) describes the one position the rules of shogi define. The incrementally kept position keys change exactly by the pieces that moved, and the keys computed ahead of a move (position key after the move, opening-book key after the move) equal the keys the move produces.',
 ['inputs', 'histories'], 'every position and every class of move (colour x moved/dropped kind x promotion x captured kind), every square',
 'The redundant views and keys are updated incrementally; a wrong update for one piece kind or colour only shows on positions where that piece moves or is captured, and only in the view that was missed.',
 ['src/position.cpp', 'src/position.hpp', 'src/hand.hpp', 'src/book.cpp', 'src/move.hpp'], [('incremental update', 'src/position.cpp Position::doMove'), ('look-ahead keys', 'src/position.hpp Position::getKeyAfter, getBoardKeyAfter; src/book.cpp Book::bookKeyAfter'), ('packed hand', 'src/hand.hpp Hand')],
 check='p02', technique='abstract interpretation of LLVM IR (symbolic squares, linear keys, disjunctive worklist)',
 note='Compared cell by cell with the successor position the rules define, for every move class; squares symbolic. Collision-freeness of the keys is not claimed.')
prop('P03', 'Every encoding and notation of a move carries the same move',
 'Origin, destination, moving, dropped and captured kind, promotion and drop of a move are the same whichever representation it takes: the 32-bit move and all its accessors, the 16-bit move, the PSV move of training data, the 180-degree rotated move, the policy label (81 x direction or hand piece + destination, seen from the side to move), and the USI and CSA texts. Each representation that keeps enough information turns back into exactly the move it came from, for every move of either colour.',
 ['inputs'], 'every origin, destination, kind, captured kind, promotion flag and colour',
 'The tests convert a handful of moves; an off-by-one in one field, one kind, one direction or one colour only shows for those moves.',
 ['src/move.hpp', 'src/move.cpp', 'src/usi.cpp', 'src/square.hpp', 'src/piece.hpp', 'src/hand.hpp', 'src/cshogi.h', 'cshogi/_cshogi.pyx'], [('move layout', 'src/move.hpp Move'), ('Python accessors, PSV, rotation, label', 'src/cshogi.h __move_to ... __dlshogi_make_move_label, __Board::move, drop_move, move_from_move16, move_from_psv'), ('USI and CSA', 'src/move.cpp Move::toUSI, toCSA; src/usi.cpp usiToMoveBody, csaToMoveBody')],
 check='p03', technique='abstract interpretation of LLVM IR (sum-of-field-maps domain with difference bounds; symbolic strings and tables)',
 note='Exact in the domain: every field symbolic over its whole range, nothing sampled; legality tests are taken to succeed.')

prop('P04', 'A move from outside is accepted exactly when it is legal',
 'For every position and every move value, is_legal answers true exactly when the rules allow the move: origin and destination, moving kind and captured kind fit the position, promotion is allowed (or not forced), drops are of a kind in hand on an allowed square, and the own king is not left attacked. The readers of USI and CSA move texts return a move only for texts that are entirely a move and only when that test succeeds; every other text gives no move.',
 ['inputs'], 'every position, every move between two squares with and without promotion, every drop of every kind, moves made for another position, and every text',
 'Interfaces feed arbitrary engine and network output through these tests; the repository tests only feed legal moves. An illegal move that is let through corrupts the position.',
 ['src/position.cpp', 'src/usi.cpp', 'src/cshogi.h'], [('legality of a given move', 'src/position.cpp Position::moveIsPseudoLegal, pseudoLegalMoveIsLegal'), ('readers', 'src/usi.cpp usiToMoveBody, csaToMoveBody'), ('entry point', 'src/cshogi.h __Board::moveIsLegal')],
 check='p04', technique='abstract interpretation of LLVM IR (bitboards projected on tracked squares; symbolic texts) against the rules',
 note='Positions seen through at most six tracked squares; attack tables taken from the rules. Texts with one open character at a time, one further or one missing character.')
prop('P05', 'The legal moves are exactly the moves the rules of shogi allow',
 'For every position, legal_moves yields each move the rules allow exactly once and nothing else: pieces go where they can and lines are not jumped; own pieces are not captured; promotion is offered exactly when the move touches the promotion zone and staying unpromoted unless the piece could never move again; drops go to empty squares, never a second pawn on a file, never onto a dead square, never a pawn that mates; no move leaves the own king attacked (king moves into direct or uncovered attacks, pinned pieces, unanswered checks, double checks), and every capture or interposition that answers a check is there. The moves carry the right moving and captured kind. pseudo_legal_moves yields the same moves plus only moves that leave the own king attacked.',
 ['inputs'], 'every position that can arise (side not to move not in check, no piece on a square where it could never move) and every candidate move in it',
 'The tests count moves of a few positions; a missing or extra move needs one kind, colour, rank, pin direction, kind of check or shielded line.',
 ['src/generateMoves.cpp', 'src/generateMoves.hpp', 'src/position.cpp', 'src/position.hpp', 'src/cshogi.h'], [('generation', 'src/generateMoves.cpp GenerateMoves<LegalAll>, <PseudoLegal>, <Evasion>, <NonEvasion>, generateDropMoves, GeneratePieceMoves'), ('king safety', 'src/position.cpp Position::pseudoLegalMoveIsLegal, attackersTo; src/position.hpp hiddenCheckers'), ('mate by a dropped pawn', 'src/position.cpp Position::isPawnDropCheckMate')],
 check='p05', technique='abstract interpretation of LLVM IR (bitboards projected on tracked squares with symbolic coordinates and contents) against the rules',
 note='Positions seen through at most six tracked squares; the attack tables themselves (piece reach on an occupied board, squares between) are taken from the rules. pin geometry: four distances in the quick run, all in the thorough one.')
prop('P06', 'The declaration win is reported exactly when the 27-point rule grants it',
 'For every position, is_nyugyoku is true exactly when the side to move is not in check, its king stands in the last three ranks, at least ten of its other pieces stand there, and these pieces and its hand are worth at least 28 points for Black or 27 for White (rooks, bishops and their promoted forms five points, everything else one).',
 ['inputs'], 'every position: every number and kind of pieces in the zone and in hand, every king square, both colours',
 'A wrong weight, threshold, zone or hand slot changes the verdict only in positions at the limit that contain the piece in question; the tests hold a handful of positions.',
 ['src/search.cpp', 'src/position.hpp', 'src/hand.hpp', 'src/bitboard.cpp'], [('declaration', 'src/search.cpp nyugyoku')],
 check='p06', technique='abstract interpretation of LLVM IR (counting domain: classes of board parts and contents, linear path conditions) against the rule',
 note='Exact: every combination of numbers of pieces is covered; the board is cut into the parts the code distinguishes.')
prop('P07', 'Every search hands the position back exactly as it was given',
 'Every mate search (one-ply, fixed odd/even depth, both proof-number solvers, in every public form: search, and-node search, best move, principal variation) returns with the position it was given unchanged: the moves it made have all been taken back, each by the move that was made, in reverse order, on every way out, including running out of nodes, being told to stop, finding a repetition and leaving by exception.',
 ['inputs', 'histories'], 'every position, search limit and path through the search, including early exits and exceptions',
 'The test-suite runs a few fixed problems to their normal end; an early exit, node limit, stop request or repetition taken at one particular point of the tree is a path the tests never see, and the caller silently continues on a different position.',
 ['src/dfpn.cpp', 'src/osl_dfpn.cpp', 'src/mate.cpp', 'src/cshogi.h'], [('proof-number search', 'src/dfpn.cpp DfPn::dfpn_inner, get_pv; src/osl_dfpn.cpp OslDfPn'), ('fixed-depth mate', 'src/mate.cpp mateMoveInOddPly, mateMoveInEvenPly'), ('Python entry points', 'src/cshogi.h __DfPn, __Board::mateMove')],
 check='p07', technique='interprocedural typestate analysis over LLVM IR (depth of the position, per exit)',
 note='Sound with respect to paths (all syntactic paths, with conditions correlated where the code requires it); whether two move operands are the same move is decided by value numbering, unknown pairs are not reported.')

prop('P08', 'A board\'s move history and its position never fall out of step',
 'After every operation of a board (construction, copying, setting up from SFEN, a position command, packed or piece-array form, reset, push, pass, pop, and every query), whether it returns or raises, the recorded history and the position belong together: setting up a position empties the history, a new move is in the history exactly when it has been made, a move taken back is gone from it, a copy owns its own history, and the position never refers to a record that no longer exists.',
 ['inputs', 'histories', 'fault_sequences'], 'every operation of the board interface and every way out of it, normal or by exception, in any order',
 'A dangling or stale state record usually still holds the old bytes, so tests see nothing; it takes a failing set-up call, a copy or a long game that relocates records to expose it.',
 ['src/cshogi.h', 'src/position.cpp', 'src/position.hpp'], [('history container', 'src/cshogi.h __Board::history'), ('set-up operations', 'src/cshogi.h __Board::set, set_position, set_pieces, set_hcp, set_psfen, reset'), ('make/unmake', 'src/cshogi.h __Board::push, pop, push_pass, pop_pass')],
 check='p08', technique='interprocedural typestate analysis over LLVM IR (history vs. state pointer, all normal and exceptional exits)',
 note='All paths of all declared operations; running out of memory excluded.')
prop('P09', 'Errors in the C++ core reach Python as exceptions and never end the process',
 'Whatever a caller passes in, an error detected by the C++ core (malformed SFEN, position string, packed position, game record, unreadable file, failed conversion) surfaces in Python as an exception that can be caught; no C++ exception crosses a function that cannot pass it on, which would end the interpreter.',
 ['inputs', 'fault_sequences'], 'every function of the core that Python code can reach, every exception it or anything it calls can raise',
 'The tests feed valid data; whether an exception escapes depends on the declaration of each binding and on everything the bound function can reach.',
 ['cshogi/_cshogi.pyx', 'src/cshogi.h', 'src/parser.h', 'src/position.cpp'], [('binding declarations', 'cshogi/_cshogi.pyx cdef extern blocks'), ('throw sites', 'src/cshogi.h, src/parser.h, src/position.cpp')],
 check='p09', technique='interprocedural effect analysis (exception types) joined with the Cython declarations',
 note='Exception types are tracked through calls and handlers; standard-library calls on constant arguments are taken not to throw.')
prop('P12', 'Python constants and record types describe exactly what the core uses',
 'Every constant Python exposes (piece types, coloured pieces, hand pieces, colours, squares, game results, repetition kinds, square names, hand limits) has the value of the core\'s own enumerator, and every numpy record type for training data and opening books (packed positions, position with evaluation, packed SFEN, book entries) has the size, field offsets, widths and signedness of the core\'s structure.',
 ['inputs'], 'every exported constant and every field of every record type',
 'A constant or a field that is off by one is read back consistently by the same code; only data written by the core and read in Python, with that particular value, shows it.',
 ['cshogi/_cshogi.pyx', 'cshogi/__init__.py', 'src/piece.hpp', 'src/square.hpp', 'src/color.hpp', 'src/common.hpp', 'src/position.hpp', 'src/book.hpp'], [('exported constants', 'cshogi/_cshogi.pyx module level'), ('record layouts', 'src/position.hpp HuffmanCodedPos, HuffmanCodedPosAndEval, PackedSfen, PackedSfenValue; src/book.hpp BookEntry')],
 check='p12', technique='constant folding of the Cython module compared with enumerators and struct layouts from debug information',
 note='Exact for definitions that fold; anything else is reported undecided.')
prop('P17', 'Repetition verdicts follow the whole history and the rules',
 'For every game, the repetition verdict is the one the rules and the documented search rule give: walking back from the current position by at most the limit given and never past a pass, the first earlier record (an even number, at least four, of plies back) with the same board and side to move decides: with the same hands it is a loss for a side that has given check on every one of its moves since, a win when the opponent has, otherwise a draw; with different hands it is superior or inferior when one hand contains the other, and otherwise the walk goes on. The look-ahead form gives for a move what the position after the move has. The counters it relies on (plies since a pass, consecutive checks per side, hand) are kept correctly by every move and pass.',
 ['inputs', 'histories'], 'every history, limit, cycle length, sequence of checks and pair of hands',
 'The verdict depends on the whole history of keys, hands and checks; tests replay one or two short cycles.',
 ['src/position.cpp', 'src/hand.hpp', 'src/cshogi.h'], [('verdict', 'src/position.cpp Position::isDraw, Position::moveIsDraw'), ('counters', 'src/position.cpp Position::doMove, doNullMove'), ('hand order', 'src/hand.hpp Hand::isEqualOrSuperior')],
 check='p17', technique='abstract interpretation of LLVM IR (symbolic history records, sum-of-field-maps domain) against the rule',
 note='History of up to 10 plies since the last pass (loop body is uniform), keys and hands symbolic; where both sides have been checking all the time either verdict is accepted. Equality of keys is taken as equality of positions.')

prop('P18', 'Check is recorded exactly: the checkers are the pieces attacking the king',
 'After every move (with promotion, capture, drop, by any piece including the king) and after every way of setting up a position, is_check is true exactly when the king of the side to move is attacked, and the recorded set of checking pieces is exactly the set of opposing pieces attacking it: the piece that arrived when it attacks the king, the piece whose line was opened, both in a double check, and nothing else.',
 ['inputs', 'histories'], 'every position and legal move: kinds, colours, geometry, blockers, ranks',
 'Checkers are kept incrementally from tables of check squares and pinned pieces; a wrong case needs one kind on one line with one geometry, and every later legality answer depends on it.',
 ['src/position.cpp', 'src/position.hpp'], [('incremental checkers', 'src/position.cpp Position::doMove'), ('check test', 'src/position.cpp Position::moveGivesCheck; src/position.hpp CheckInfo'), ('set-up', 'src/position.hpp Position::findCheckers')],
 check='p18', technique='abstract interpretation of LLVM IR (tracked squares, symbolic contents and coordinates) against the rules',
 note='All kinds, colours, promotions and ranks; quick uses five line geometries per direction for discovered checks, thorough all.')
prop('P19', 'Attack sets are exact for every piece, square and arrangement of blockers',
 'For every kind of piece, colour, square and occupancy of the board, the set of squares the core says the piece attacks is exactly the set the rules define: steps stay on the board, lines run up to and including the first piece and not beyond. The squares between two squares and their relation (same file, rank, diagonal) are those of the board, and operations on sets of squares (union, intersection, difference, membership, first square, size, shifts) are exact.',
 ['inputs'], 'every square, kind, colour and all 2^81 occupancies',
 'The line attacks are computed by carry arithmetic on byte-reversed words and the tables by chained initialisers; an error on one square or one arrangement of blockers is one of 2^81 inputs.',
 ['src/bitboard.hpp', 'src/bitboard.cpp', 'src/init.cpp', 'src/square.hpp', 'src/position.cpp'], [('line attacks', 'src/bitboard.hpp rookAttackRank, rookAttackFile, bishopAttack, lanceAttack'), ('tables', 'src/init.cpp initTable'), ('sets of squares', 'src/bitboard.hpp class Bitboard')],
 check='p19', technique='constant folding of the table initialisers and bit-level abstract interpretation (unknown bits) of the attack functions',
 note='Exact for all occupancies: everything beyond the first piece of one line is left unknown during the evaluation.')

prop('P10', 'Position formats: what is written follows the format and reads back the same',
 'For every position, sfen(), csa_pos(), to_hcp() and to_psfen() write exactly what the SFEN, CSA, Huffman-coded (HCP) and packed SFEN (PSFEN) formats define for it: every piece on its square, promotion, colour, runs of empty squares, both hands with their counts in the defined order, pieces left over, side to move, move number. set_sfen, set_hcp, set_psfen and set_pieces accept every position in their format and set exactly its pieces, hands and side to move (and move number where the format has one), so reading what was written gives the same position.',
 ['inputs'], 'every position: all contents of all squares, all hand counts, either side to move, with and without pieces left over',
 'Tests convert a handful of positions; a wrong code, letter, count or order needs one kind, colour, square, number in hand or run of empty squares.',
 ['src/position.cpp', 'src/position.hpp', 'src/hand.hpp', 'src/piece.hpp', 'src/usi.cpp'], [('text', 'src/position.cpp Position::toSFEN, toCSAPos, set(const std::string&)'), ('packed', 'src/position.cpp toHuffmanCodedPos, toPackedSfen, set_hcp, set_psfen; HuffmanCodedPos and PackedSfen code tables; src/position.hpp BitStream'), ('arrays', 'src/position.cpp Position::set(const Piece[], const int[][])')],
 check='p10', technique='finite transducers extracted from LLVM IR (cut at loop headers); complete product with the grammar of each format',
 note='Every position and every text of the formats is covered by the finite product; malformed input is not claimed. SFEN hands are read in the canonical order.')
prop('P21', 'A position set up is complete, and its key depends on nothing but the position',
 'However a position is set up (SFEN, HCP, PSFEN, piece array, change of the side to move), everything derived from the pieces is computed from the position as finally set: king squares (or none), the set of gold-movers, the keys, the recorded hand of the side to move and the checking pieces. The keys computed from scratch hold exactly one table entry per piece on its square by kind, square and colour, one per piece in hand, and the side to move, the same entries moves add and remove, so equal positions have equal keys however they were reached.',
 ['inputs', 'histories'], 'every set-up routine, every path through it, every position',
 'A stale or missing derived member shows only in later answers (check, repetition, legality) for positions in which it matters.',
 ['src/position.cpp', 'src/position.hpp'], [('set-up', 'src/position.cpp Position::set, set_hcp, set_psfen; src/position.hpp setTurn'), ('keys', 'src/position.cpp Position::computeBoardKey, computeHandKey')],
 check='p21', technique='must-be-computed typestate over transducers extracted from LLVM IR; symbolic multisets of key table entries',
 note='All paths of the set-up routines; all contents of all squares and all hand counts for the keys. Opening-book keys from scratch are not covered here.')

prop('P22', 'Fixed-depth mate search answers exactly what its tree of moves says',
 'mate_move(n) returns a move only if that checking move is followed, for every legal reply, by a forced win within the remaining plies, and returns no move only if none of the checking moves does that; is_mate(n) says mate exactly when every legal reply loses in that way. Of the checks listed while in check only those that answer the check count. A repetition lost by the defender counts as won; a draw, a repetition won by the defender or a better hand for the defender counts as refuted (for the attacker: won, lost, drawn or worse hand respectively). The last ply is decided by the one-ply search and never while in check; a reply that gives check at the last level counts as an escape. The position is always told correctly whether the move made gives check, and the answer is the same whatever order the moves are listed in.',
 ['inputs', 'histories'], 'every tree of checks and replies with every combination of legality, check, repetition verdict and one-ply result at its nodes',
 'Tests run a few mate problems; an escape that is overlooked or a verdict taken the wrong way round needs a reply that gives check, a repetition of one kind, or an evasion at one particular level.',
 ['src/mate.cpp', 'src/mate.h', 'src/cshogi.h'], [('search', 'src/mate.cpp mateMoveIn3Ply, mateMoveInOddPlyReturnMove, mateMoveInOddPly, mateMoveInEvenPly, MovePicker'), ('interface', 'src/cshogi.h mateMove, is_mate')],
 check='p22', technique='abstract interpretation of LLVM IR over symbolic game trees; three-valued AND/OR value as oracle',
 note='Trees of up to 7 plies with up to 3 moves per node; the moves listed, repetition verdicts and one-ply answers are symbolic and are decided by other properties or assumed.')
prop('P20', 'The checks a mate search tries are exactly the legal moves that give check',
 'In every position where the side to move does not already attack the opposing king, the moves the mate searches (mate_move, is_mate, the DfPn solver) consider for the attacking side are exactly the legal moves that give check, each once: direct checks by every kind of piece, plain and promoting (also where not promoting looks pointless), captures, checks discovered by a piece or the king leaving a line, double checks, and drops, without second pawns on a file and without mate by a dropped pawn, and never a move that leaves the own king attacked. When the attacking side is in check itself, exactly those of them that answer the check remain after the filter the searches apply.',
 ['inputs'], 'every arrangement of the pieces that bear on the move, anywhere on the board, both colours, all hands',
 'The generator combines pre-computed tables of candidate squares with a case for each kind of piece and line; a missing or extra check for one piece, rank or line only changes a mate answer in positions built around it.',
 ['src/generateMoves.cpp', 'src/init.cpp', 'src/bitboard.hpp', 'src/position.cpp', 'src/mate.cpp', 'src/dfpn.cpp'], [('generator', 'src/generateMoves.cpp GenerateMoves<Check>, generatCheckMoves'), ('candidate tables', 'src/init.cpp initCheckTable'), ('filter in check', 'src/position.cpp Position::checkMoveIsEvasion')],
 check='p20', technique='abstract interpretation of LLVM IR on positions seen through tracked squares; candidate tables folded; rules of shogi as oracle',
 note='Up to seven tracked squares with symbolic place and content; distances sampled in the quick run, all in the thorough run.')
prop('P15', 'What the interface hands out about a position is the position',
 'In every position, Board.pieces, piece, piece_type, pieces_in_hand, king_square and turn, and the planes filled by piece_planes and piece_planes_rotate, report exactly the contents of the position: each square its piece, each hand its number of each kind, each piece the one cell of its kind, colour and square. piece_planes_rotate reports the position turned by 180 degrees with colours exchanged when White is to move.',
 ['inputs'], 'every content of every square, every number of pieces in hand, both sides to move',
 'The planes are filled kind by kind and colour by colour through bitboards with separate code for each view; one exchanged kind, colour or square is visible only in positions with that piece there.',
 ['src/cshogi.h', 'cshogi/_cshogi.pyx', 'src/position.hpp', 'src/hand.hpp'], [('views', 'src/cshogi.h __Board::pieces, pieces_in_hand, piece_planes, piece_planes_rotate'), ('bindings', 'cshogi/_cshogi.pyx Board')],
 check='p15', technique='abstract interpretation of LLVM IR on positions seen through tracked squares; Cython syntax tree for the bindings',
 note='One or two tracked squares anywhere with any content; all hand counts. The dlshogi feature planes are not covered.')
prop('P23', 'The one-ply mate search returns only moves that mate',
 'mate_move_in_1ply returns only legal moves after which the opponent has no legal reply.',
 ['inputs'], 'every position',
 'The search decides without making the moves, from attack patterns around the king; a wrong pattern needs a special arrangement.',
 ['src/position.cpp'], [('one-ply search', 'src/position.cpp Position::mateMoveIn1Ply')],
 na='Whether every reply loses depends on the whole neighbourhood of the king and all lines into it at once (more than a dozen interacting squares); the tracked-square interpretation that decides the other rule properties follows at most seven, and splitting the pattern code into local obligations would need its undocumented invariants restated by hand.')
prop('P24', 'The df-pn solver terminates and finds a mate whenever its limits allow',
 'Given nodes and depth enough, the df-pn solver reports a mate exactly when one exists, and its principal variation is a forced mate.',
 ['inputs', 'schedules'], 'every position, every limit, every table state',
 'Completeness depends on proof-number thresholds, transposition-table contents and repetition handling accumulated over millions of nodes.',
 ['src/dfpn.cpp', 'src/osl_dfpn.cpp'], [('search', 'src/dfpn.cpp DfPn::dfpn_inner')],
 na='Completeness and termination quantify over proof numbers and table states reached at run time; no sound static argument in reach bounds them. What can be decided without running is claimed elsewhere: moves made are taken back (P07), the checks tried are right (P20).')

def main():
    with open('properties.jsonl', 'w') as fh:
        for p in P:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            if p['state']: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps(d, ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3 engine/build.py', checks=[dict(property=p['id'], quick_cmd='python3 checks/%s.py' % p['check'], thorough_cmd='python3 checks/%s.py --thorough' % p['check'], technique=p['technique'], level=p['level'], level_note=p['note']) for p in P if p['check']],
             not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if not p['check']],
             notes='Static analysis only. engine/ holds the front end (clang -> LLVM bitcode -> facts; Python/Cython syntax trees) and the abstract interpreters, checks/ one driver per property; everything is derived from /repo at each run. known_findings.txt lists repaired and recorded defects.')
    with open('MANIFEST.json', 'w') as fh: json.dump(m, fh, indent=1, ensure_ascii=False); fh.write('\n')
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), ps)
    jsonschema.validate(m, ms)
    print(len(P), 'properties,', len(m['checks']), 'claimed')
if __name__ == '__main__': main()
