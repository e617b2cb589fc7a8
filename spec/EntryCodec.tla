----------------------------- MODULE EntryCodec -----------------------------
(* The typed contents of one queue or log entry.  Offsets count from an      *)
(* address that is a multiple of 64; the entry's contents are [lo, hi).  A   *)
(* writer's and a reader's handle each have a place of their own.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES lo, hi,
          mem,       \* offset -> byte, for the bytes written so far
          wr, rd     \* where the writer's and the reader's next item may start
AlignUp(p, al) == al * ((p + al - 1) \div al)
Fits(p, sz, al) == AlignUp(p, al) + sz <= hi
Put(bytes, al) ==
  LET at == AlignUp(wr, al) IN
  /\ Fits(wr, Len(bytes), al)
  /\ mem' = [x \in at..(at + Len(bytes) - 1) |-> bytes[x - at + 1]] @@ mem
  /\ wr' = at + Len(bytes) /\ UNCHANGED <<lo, hi, rd>>
Refused(sz, al) == ~Fits(wr, sz, al) /\ UNCHANGED <<lo, hi, mem, wr, rd>>
(* room for a structure: nothing is written *)
Take(sz, al) == Fits(wr, sz, al) /\ wr' = AlignUp(wr, al) + sz /\ UNCHANGED <<lo, hi, mem, rd>>
Known(at, sz) == \A x \in at..(at + sz - 1) : x \in DOMAIN mem
At(at, sz) == [k \in 1..sz |-> mem[at + k - 1]]
(* the next item of a size and alignment; bytes never written may have any value *)
Get(bytes, al) ==
  LET at == AlignUp(rd, al) IN
  /\ Fits(rd, Len(bytes), al)
  /\ \A k \in 1..Len(bytes) : at + k - 1 \in DOMAIN mem => bytes[k] = mem[at + k - 1]
  /\ rd' = at + Len(bytes) /\ UNCHANGED <<lo, hi, mem, wr>>
Skip(sz, al) == Fits(rd, sz, al) /\ rd' = AlignUp(rd, al) + sz /\ UNCHANGED <<lo, hi, mem, wr>>
Short(sz, al) == ~Fits(rd, sz, al) /\ UNCHANGED <<lo, hi, mem, wr, rd>>
(* a string ends at the first zero byte *)
GetString(n) ==       \* n: its length
  /\ rd + n < hi /\ \A x \in rd..(rd + n - 1) : x \in DOMAIN mem => mem[x] # 0
  /\ rd + n \in DOMAIN mem => mem[rd + n] = 0
  /\ rd' = rd + n + 1 /\ UNCHANGED <<lo, hi, mem, wr>>
NoString == (\A x \in rd..(hi - 1) : x \in DOMAIN mem => mem[x] # 0) /\ UNCHANGED <<lo, hi, mem, wr, rd>>
---------------------------------------------------------------------------
Inside == wr \in lo..hi /\ rd \in lo..hi /\ DOMAIN mem \subseteq lo..(hi - 1)
(* what has been written stays *)
Kept == [][lo' = lo /\ hi' = hi => \A x \in DOMAIN mem : x \in DOMAIN mem' /\ mem'[x] = mem[x]]_<<lo, hi, mem, wr, rd>>
=============================================================================
