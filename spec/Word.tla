-------------------------------- MODULE Word --------------------------------
(* A machine word as a sequence of limbs, least significant first, and what  *)
(* the atomic primitives make of it.  Every primitive takes effect at one    *)
(* instant; it answers with what it found.                                   *)
EXTENDS Integers, Sequences, Bitwise
CONSTANTS B,     \* a limb is 0..B-1
          L      \* limbs of a word; its lower half is a word of its own
ASSUME L % 2 = 0
Zero == [i \in 1..L |-> 0]
One == [i \in 1..L |-> IF i = 1 THEN 1 ELSE 0]
Ones == [i \in 1..L |-> B - 1]
IsWord(a) == Len(a) = L /\ \A i \in 1..L : a[i] \in 0..(B - 1)
(* carry into limb i *)
Carry(a, b) ==
  LET c[i \in 1..L] == IF i = 1 THEN 0 ELSE (a[i - 1] + b[i - 1] + c[i - 1]) \div B IN c
Add(a, b) == LET c == Carry(a, b) IN [i \in 1..L |-> (a[i] + b[i] + c[i]) % B]
AndW(a, b) == [i \in 1..L |-> a[i] & b[i]]
OrW(a, b) == [i \in 1..L |-> a[i] | b[i]]
Low(a) == [i \in 1..L |-> IF 2 * i <= L THEN a[i] ELSE 0]
Put(a, h) == [i \in 1..L |-> IF 2 * i <= L THEN h[i] ELSE a[i]]     \* h in the lower half of a
Odd(a) == a[1] % 2 = 1
Even(a) == [a EXCEPT ![1] = @ - (@ % 2)]
MakeOdd(a) == [a EXCEPT ![1] = @ + (1 - (@ % 2))]
Bool(b) == IF b THEN One ELSE Zero
(* what operation o with operands x and y leaves in a word, and answers; on the *)
(* lower half where it works on an int                                       *)
After(o, a, x, y) ==
  CASE o \in {"add", "addp"} -> Add(a, x)
    [] o \in {"inc", "incl"} -> Add(a, One)
    [] o \in {"dec", "decl"} -> Add(a, Ones)
    [] o = "and" -> Put(a, AndW(a, x))
    [] o = "or" -> Put(a, OrW(a, x))
    [] o = "andl" -> AndW(a, x)
    [] o = "orl" -> OrW(a, x)
    [] o = "swap" -> x
    [] o = "cas" -> (IF a = x THEN y ELSE a)
    [] o = "spininit" -> Put(a, Zero)
    [] o \in {"spin", "spiny", "spintry"} -> (IF Low(a) = Zero THEN Put(a, One) ELSE a)
    [] o = "spinfree" -> Put(a, Zero)
    [] o = "ptrinit" -> Zero
    [] o \in {"ptr", "ptry", "ptrtry"} -> MakeOdd(a)
    [] o = "ptrset" -> MakeOdd(x)
    [] o = "ptrsetlk" -> MakeOdd(x)
    [] o = "ptrfree" -> Even(a)
Answer(o, a, x, y) ==
  CASE o \in {"add", "addp", "incl", "decl", "andl", "orl", "swap"} -> a
    [] o \in {"and", "or"} -> Low(a)
    [] o = "cas" -> Bool(a = x)
    [] o = "spintry" -> Bool(Low(a) # Zero)
    [] o = "ptrtry" -> Bool(Odd(a))
    [] o = "ptr" -> Even(a)
    [] OTHER -> Zero
(* what has to wait *)
Ready(o, a) ==
  CASE o \in {"spin", "spiny"} -> Low(a) = Zero
    [] o \in {"ptr", "ptry", "ptrset"} -> ~Odd(a)
    [] o \in {"ptrsetlk", "ptrfree"} -> Odd(a)
    [] OTHER -> TRUE
=============================================================================
