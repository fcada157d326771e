------------------------------ MODULE Transport ------------------------------
(* The two transports' framing.  Messages and frames are strings of hex digits (two per byte).

   MCTP: one type byte (05 plain SPDM, 06 secured), then the message.  Inside a secured record the plaintext begins with a type
   byte again: 05 an SPDM message, 01 application data.
   PCI DOE: vendor 0001, object type (01 plain SPDM, 02 secured), a reserved byte, the length of the object in dwords including
   these two (18 bits, 2^18 written as 0), then the message padded to whole dwords.  Plaintexts carry no type.

   Result of an operation: [w |-> "ok", pre |-> what the output begins with, len |-> its length, flag |-> the kind] or [w |-> "err"];
   "may" marks inputs for which refusing is as good as the result (bytes after the object, reserved bits).                  *)
EXTENDS Integers, Sequences, TLC
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Val == [c \in {Digits[i] : i \in 1..16} |-> (CHOOSE i \in 1..16 : Digits[i] = c) - 1]
B(n) == Digits[(n \div 16) + 1] \o Digits[(n % 16) + 1]                                       \* one byte
Oct(n, k) == LET q == n \div k IN B(q % 256)
Le4(n) == Oct(n, 1) \o Oct(n, 256) \o Oct(n, 65536) \o Oct(n, 16777216)
At(m, i) == 16 * Val[SubSeq(m, 2 * i + 1, 2 * i + 1)] + Val[SubSeq(m, 2 * i + 2, 2 * i + 2)]     \* byte i of m
Size(m) == Len(m) \div 2
Part(m, a, n) == SubSeq(m, 2 * a + 1, 2 * (a + n))
Err == [w |-> "err"]
Ok(pre, len, flag) == [w |-> "ok", pre |-> pre, len |-> len, flag |-> flag]
May(x) == [x EXCEPT !.w = "may"]
Fits(x, room) == IF x.w = "err" \/ x.len <= room THEN x ELSE Err
Up4(n) == ((n + 3) \div 4) * 4
MaxDw == 262144

MctpType(secured) == IF secured THEN "06" ELSE "05"
MctpAppType(app) == IF app THEN "01" ELSE "05"
DoeType(secured) == IF secured THEN "02" ELSE "01"
DoeLen(dw) == Le4(IF dw = MaxDw THEN 0 ELSE dw)

Encap(tr, m, secured, room) ==
  IF tr = "mctp" THEN Fits(Ok(MctpType(secured) \o m, 1 + Size(m), 0), room)
  ELSE LET dw == (Up4(Size(m)) + 8) \div 4 IN
       IF dw > MaxDw THEN Err ELSE Fits(Ok("0100" \o DoeType(secured) \o "00" \o DoeLen(dw) \o m, 4 * dw, 0), room)
Decap(tr, f, room) ==
  IF tr = "mctp" THEN
    IF Size(f) < 1 \/ At(f, 0) \notin {5, 6} THEN Err
    ELSE Fits(Ok(Part(f, 1, Size(f) - 1), Size(f) - 1, At(f, 0) - 5), room)
  ELSE IF Size(f) < 8 \/ At(f, 0) # 1 \/ At(f, 1) # 0 \/ At(f, 2) \notin {1, 2} THEN Err
  ELSE LET raw == At(f, 4) + 256 * At(f, 5) + 65536 * (At(f, 6) % 4)
           dw == IF raw = 0 THEN MaxDw ELSE raw
           n == 4 * dw - 8
           odd == At(f, 3) # 0 \/ At(f, 6) > 3 \/ At(f, 7) # 0 \/ Size(f) > 8 + n IN
       IF dw < 2 \/ Size(f) < 8 + n THEN Err
       ELSE LET x == Fits(Ok(Part(f, 8, n), n, At(f, 2) - 1), room) IN IF odd /\ x.w = "ok" THEN May(x) ELSE x
EncapApp(tr, m, app, room) ==
  IF tr = "mctp" THEN Fits(Ok(MctpAppType(app) \o m, 1 + Size(m), 0), room) ELSE Fits(Ok(m, Size(m), 0), room)
DecapApp(tr, m, room) ==
  IF tr = "mctp" THEN
    IF Size(m) < 1 \/ At(m, 0) \notin {1, 5} THEN Err ELSE Fits(Ok(Part(m, 1, Size(m) - 1), Size(m) - 1, IF At(m, 0) = 1 THEN 1 ELSE 0), room)
  ELSE Fits(Ok(m, Size(m), 0), room)

Op(e) == CASE e.what = "encap" -> Encap(e.tr, e.data, e.flag = 1, e.room) [] e.what = "decap" -> Decap(e.tr, e.data, e.room)
           [] e.what = "encapapp" -> EncapApp(e.tr, e.data, e.flag = 1, e.room) [] OTHER -> DecapApp(e.tr, e.data, e.room)
\* labels of the obligations the recorded operation e violates
Judge(e) ==
  IF e.ret \notin {"ok", "err"} THEN {"C25.panic", "C17.panic"}
  ELSE LET x == Op(e) IN
    (IF e.ret = "err" THEN (IF x.w = "ok" THEN {"C25.refused"} ELSE {})
     ELSE IF x.w = "err" THEN {"C25.accepted"}
     ELSE (IF e.n = x.len THEN {} ELSE {"C25.length"}) \cup (IF SubSeq(e.out, 1, Len(x.pre)) = x.pre THEN {} ELSE {"C25.content"})
          \cup (IF e.oflag = x.flag THEN {} ELSE {"C25.kind"}) \cup (IF e.n <= e.room THEN {} ELSE {"C25.overflow"}))
=============================================================================
