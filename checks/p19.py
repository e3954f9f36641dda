#!/usr/bin/env python3
"""P19: attack sets, lines and sets of squares are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
from report import Check, main
import attacks

def run(chk):
    attacks.lemma(chk, ('steps', 'dispatch', 'lines', 'prims'))
    chk.finish('The table initialisers of the current tree (static initialisers and initTable, which take no input) are folded to constants. The attack functions are then evaluated in a bit-level domain in which the occupancy is known only up to the first piece on one line and every other square is an unknown: '
               'for each square, line and distance of the first piece, the squares of the line in the result must be exactly those up to and including that piece, and off the lines exactly the steps of the piece, whatever the unknowns are. Step tables, squares between two squares and their relation are compared with the rules for all squares and pairs; '
               'the set operations (union, intersection, difference, complement, membership, first square, size, single square, shift) are evaluated on unknown sets.',
               tables='folded from source', rule='the reach of each piece as defined by the rules of shogi')
if __name__ == '__main__': main(run, Check('P19', technique='constant folding and bit-level abstract interpretation'))
