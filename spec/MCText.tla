-------------------------------- MODULE MCText -----------------------------
(***************************************************************************)
(* UTF-8 twice: by position (Bytes) and as the automaton that reads table  *)
(* 3-7 of the Unicode standard byte by byte, which also knows the code     *)
(* point it has read. All strings of at most N bytes of the classes that   *)
(* the table distinguishes.                                                *)
(***************************************************************************)
EXTENDS Bytes, TLC, Json

CONSTANTS N, Emit, Reps
\* the ends of every class of bytes, and characters that mean something
Ends == {0, 31, 32, 126, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 195, 223, 224, 225, 236, 237, 238, 239,
         240, 241, 243, 244, 245, 255}
Few  == {31, 97, 127, 128, 143, 144, 159, 160, 191, 194, 195, 224, 237, 239, 240, 244, 245}

VARIABLES s, q, cps   \* q: "start", "bad", or << bytes to come, lowest, highest next byte, bits so far >>
vars == << s, q, cps >>

Start == << 0, 0, 0, 0 >>
Dead  == << -1, 0, 0, 0 >>

Step(a, c) ==
  CASE a = Dead -> Dead
    [] a[1] = 0 /\ c < 128 -> << 0, 0, 0, c >>
    [] a[1] = 0 /\ c \in 194..223 -> << 1, 128, 191, c - 192 >>
    [] a[1] = 0 /\ c = 224 -> << 2, 160, 191, 0 >>
    [] a[1] = 0 /\ c = 237 -> << 2, 128, 159, 13 >>
    [] a[1] = 0 /\ c \in 225..239 -> << 2, 128, 191, c - 224 >>
    [] a[1] = 0 /\ c = 240 -> << 3, 144, 191, 0 >>
    [] a[1] = 0 /\ c = 244 -> << 3, 128, 143, 4 >>
    [] a[1] = 0 /\ c \in 241..243 -> << 3, 128, 191, c - 240 >>
    [] a[1] > 0 /\ c >= a[2] /\ c <= a[3] -> << a[1] - 1, 128, 191, a[4] * 64 + c - 128 >>
    [] OTHER -> Dead

Init == s = << >> /\ q = Start /\ cps = << >>
Next == /\ Len(s) < N
        /\ \E c \in (IF Reps = "ends" THEN Ends ELSE Few) :
             /\ s' = Append(s, c)
             /\ q' = Step(q, c)
             /\ cps' = IF q'[1] = 0 THEN Append(cps, q'[4]) ELSE cps
        /\ Emit => PrintT("T " \o ToJson(s'))
Spec == Init /\ [][Next]_vars

Valid == q[1] = 0
Agree == ValidUtf8(s) <=> Valid
CodePoints == Valid => \A k \in 1..Len(cps) : cps[k] >= 0 /\ cps[k] <= 1114111 /\ ~(cps[k] >= 55296 /\ cps[k] <= 57343)
Controls == Valid => (NoControl(s) <=> \A k \in 1..Len(cps) : cps[k] > 31 /\ ~(cps[k] >= 127 /\ cps[k] <= 159))
=============================================================================
