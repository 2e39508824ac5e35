---------------------------- MODULE MCSM3Stream ----------------------------
(* Exhaustive instance of SM3Stream: tiny blocks, uninterpreted compression.*)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

CONSTANTS BlockSize, Objects, MaxLen, Alphabet

VARIABLES chain, tail, len, hist, out

Append2(v, b) == Append(v, b)
MCPad(n) == <<100>> \o [i \in 1..((BlockSize - 2 - n) % BlockSize) |-> 0] \o <<n>>
MCOutput(v) == v
MCChunks == UNION {[1..k -> Alphabet] : k \in 0..MaxLen}

INSTANCE SM3Stream WITH Compress <- Append2, Start <- <<>>, Pad <- MCPad,
                        Output <- MCOutput, Chunks <- MCChunks
=============================================================================
