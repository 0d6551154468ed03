----------------------------- MODULE RomImage ------------------------------
(***************************************************************************)
(* The ROM file: bank pointers, chunk chains, song areas, song tables and  *)
(* the pieces of songs.  An image is a sequence of windows [at, d] of file *)
(* bytes (the rest of the file is compared outside, byte for byte).        *)
(***************************************************************************)
EXTENDS NspcDriver, FiniteSets

Byte(img, off) ==
  LET S == {i \in 1..Len(img) : off >= img[i].at /\ off < img[i].at + Len(img[i].d)}
  IN IF S = {} THEN -1 ELSE LET w == img[CHOOSE i \in S : TRUE] IN w.d[off - w.at + 1]
Bytes(img, off, n) ==
  LET S == {i \in 1..Len(img) : off >= img[i].at /\ off + n <= img[i].at + Len(img[i].d)}
  IN LET w == img[CHOOSE i \in S : TRUE] IN SubSeq(w.d, off - w.at + 1, off - w.at + n)
Word(img, off) == Byte(img, off) + 256 * Byte(img, off + 1)

\* console address -> file offset (LoROM mapping)
Pc(a) == (a % 32768) + (a \div 65536) * 32768

\* start of a bank's chunk chain: the pointer's three bytes are operands of three instructions
BankStart(img, base) ==
  Pc(Byte(img, Pc(base)) + 256 * Byte(img, Pc(base + 4)) + 65536 * Byte(img, Pc(base + 8)))

\* chunk: header offset, length, load address in sound RAM
RECURSIVE ChunksFrom(_, _)
ChunksFrom(img, at) ==
  LET n == Word(img, at)
      c == [at |-> at, len |-> n, aram |-> Word(img, at + 2), data |-> at + 4]
  IN IF n = 0 THEN <<c>> ELSE <<c>> \o ChunksFrom(img, at + 4 + n)
Chunks(img, base) == ChunksFrom(img, BankStart(img, base))

SongBase == 53248     \* D000
MainChunk(ch) == CHOOSE i \in 1..Len(ch) : ch[i].aram = SongBase /\ ch[i].len > 0
Areas(img, base) ==
  LET ch == Chunks(img, base)  i == MainChunk(ch) IN [main |-> ch[i], over |-> ch[i + 1]]
Mem(img, ar) ==
  [mb |-> SongBase, m |-> Bytes(img, ar.main.data, ar.main.len),
   \* (a bank may end with its main area)
   ob |-> ar.over.aram, o |-> IF ar.over.len = 0 THEN <<>> ELSE Bytes(img, ar.over.data, ar.over.len)]

\* the three banks: first song slot, number of songs, offset of the first song in the main area
First == <<0, 15, 31>>
Count == <<15, 16, 3>>
TableEnd == <<54, 70, 70>>

(***************************************************************************)
(* Extents.  A piece is [k, lo, hi]: bytes lo..hi-1 of the sound RAM.      *)
(***************************************************************************)
InArea(mem, lo, hi) ==
  \/ lo >= mem.mb /\ hi <= mem.mb + Len(mem.m)
  \/ lo >= mem.ob /\ hi <= mem.ob + Len(mem.o)

\* end of the sequence at a (behind its terminator), and the targets of its loop calls
RECURSIVE ScanFrom(_, _, _)
ScanFrom(mem, a, calls) ==
  LET b == Rd(mem, a) IN
  IF b = -1 THEN [hi |-> -1, calls |-> calls]
  ELSE IF b = 0 THEN [hi |-> a + 1, calls |-> calls]
  ELSE IF b < FirstCmd THEN ScanFrom(mem, a + 1, calls)
  ELSE IF b > LastCmd THEN [hi |-> -2, calls |-> calls]
  ELSE ScanFrom(mem, a + 1 + ParamCount[b - FirstCmd + 1],
                IF b = CallCmd THEN calls \cup {RdWord(mem, a + 1)} ELSE calls)
Scan(mem, a) == ScanFrom(mem, a, {})

\* the list of the parts with what follows it
HeaderLen(mem, s) ==
  LET n == 2 * PartsFrom(mem, s)  w == RdWord(mem, s + n)
  IN IF n = 0 THEN -1 ELSE IF w = 0 THEN n + 2 ELSE IF w = 255 THEN n + 6 ELSE -1

\* all pieces of the song in slot n; hi = -1/-2 marks a broken one
Pieces(mem, n) ==
  LET s == SongAddr(mem, n)
      hl == HeaderLen(mem, s)
      parts == {RdWord(mem, s + 2 * (k - 1)) : k \in 1..NumParts(mem, n)}
      all == {PartVoices(mem, p)[i] : i \in 1..8, p \in parts}
      vs == all \ {0}
      bodies == UNION {Scan(mem, v).calls : v \in vs}
      inner == UNION {Scan(mem, v).calls : v \in bodies}
  IN IF s = -1 \/ hl = -1 \/ -1 \in all
     THEN {[k |-> "broken header", lo |-> s, hi |-> -1]}
     ELSE {[k |-> "header", lo |-> s, hi |-> s + hl]}
          \cup {[k |-> "part", lo |-> p, hi |-> p + 16] : p \in parts}
          \cup {[k |-> "voice", lo |-> v, hi |-> Scan(mem, v).hi] : v \in vs}
          \cup {[k |-> "body", lo |-> v, hi |-> Scan(mem, v).hi] : v \in bodies \cup inner}

(***************************************************************************)
(* The song level of the driver: it plays parts, jumps and stops.          *)
(***************************************************************************)
SongInit(mem, n) == [st |-> "run", pos |-> SongAddr(mem, n)]
SongNext(mem, s) ==
  LET w == RdWord(mem, s.pos) IN
  IF w = -1 THEN [s |-> [s EXCEPT !.st = "err"], part |-> -1]
  ELSE IF w = 0 THEN [s |-> [s EXCEPT !.st = "stop"], part |-> -1]
  ELSE IF w = 255 THEN [s |-> [s EXCEPT !.pos = RdWord(mem, s.pos + 2)], part |-> -1]
  ELSE IF w < 256 THEN [s |-> [s EXCEPT !.st = "err"], part |-> -1]
  ELSE [s |-> [s EXCEPT !.pos = @ + 2], part |-> w]
=============================================================================
