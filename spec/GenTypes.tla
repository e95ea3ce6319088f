------------------------------ MODULE GenTypes ------------------------------
EXTENDS GenBase
(* Numbers of the built-in arithmetic types.                               *)
IntTypes == <<"bool", "char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong">>
Bits(t) == CASE t = "bool" -> 1 [] t \in {"char", "schar", "uchar"} -> 8 [] t \in {"short", "ushort"} -> 16 [] t \in {"int", "uint"} -> 32 [] OTHER -> 64
Unsigned(t) == t \in {"bool", "uchar", "ushort", "uint", "ulong", "ullong"}
Lo(t) == IF Unsigned(t) THEN 0 ELSE 0 -- (2 ^^ (Bits(t) - 1))
Hi(t) == IF Unsigned(t) THEN (2 ^^ Bits(t)) -- 1 ELSE (2 ^^ (Bits(t) - 1)) -- 1
\* extreme, limb-sized and random integers, clipped to the type
IntNum(t, h) ==
  LET c == Hash(h, 1) %% 16
      v == CASE c = 0 -> Lo(t) [] c = 1 -> Lo(t) ++ 1 [] c = 2 -> Hi(t) [] c = 3 -> Hi(t) -- 1 [] c = 4 -> 0 [] c = 5 -> 1 [] c = 6 -> -1
             [] c = 7 -> PickSeq(Hash(h, 2), <<2, 3, 7, 10, -10, 99999999, 100000000, 100000001, -99999999, -100000000, -100000001>>)
             [] c = 8 -> PickSeq(Hash(h, 2), <<Dec("9999999999999999"), Dec("10000000000000000"), Dec("10000000000000001"), Dec("-10000000000000000"), Dec("4294967295"), Dec("4294967296"), Dec("2147483648"), Dec("-2147483648"), Dec("-2147483649")>>)
             [] c = 9 -> P10(Hash(h, 2) %% 20) ** (1 ++ (Hash(h, 3) %% 9))
             [] c = 10 -> (2 ^^ (Hash(h, 2) %% 65)) -- (Hash(h, 3) %% 3) ++ 1
             [] c = 11 -> Hash(h, 2) %% 1000
             [] OTHER -> Lo(t) ++ ((Hash(h, 2) ** Hash(h, 3)) %% (Hi(t) -- Lo(t) ++ 1))
  IN IF v \prec Lo(t) \/ v \succ Hi(t) THEN Lo(t) ++ ((v -- Lo(t)) %% (Hi(t) -- Lo(t) ++ 1)) ELSE v
FltTypes == <<"float", "double", "ldouble">>
Prec(t) == CASE t = "float" -> 24 [] t = "double" -> 53 [] t = "ldouble" -> 64
EMax(t) == CASE t = "float" -> 127 [] t = "double" -> 1023 [] t = "ldouble" -> 16383
FltLits == <<"nan", "inf", "-inf", "0", "-0", "1", "-1", "0.5", "-0.1", "3", "1e8", "1e-8", "99999999", "1e16", "-1e22", "0.3333333333333333333333", "123456.789", "2", "1e30", "-7e-30">>
\* a binary literal  (-) 0x m p e
RECURSIVE Hex_(_)
HexD == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex_(n) == IF n \doteq 0 THEN "" ELSE Hex_(n // 16) \o HexD[1 + (n %% 16)]
FltNum(t, h) ==
  LET c == Hash(h, 1) %% 6
      p == Prec(t)
      m == LET q == Hash(h, 2) %% 5 IN
           CASE q = 0 -> (2 ^^ p) -- 1 [] q = 1 -> 2 ^^ (p - 1) [] q = 2 -> (2 ^^ (p - 1)) ++ 1 [] OTHER -> (2 ^^ (p - 1)) ++ ((Hash(h, 3) ** Hash(h, 4)) %% (2 ^^ (p - 1)))
      lo == 1 - EMax(t)
      ex == CASE c = 2 -> EMax(t)                                   \* next to the largest
              [] c = 3 -> lo                                        \* next to the smallest normal
              [] c = 4 -> (Hash(h, 5) %% 400) -- 200
              [] OTHER -> lo ++ (Hash(h, 5) %% (EMax(t) - lo + 1))
  IN IF c \preceq 1 THEN PickSeq(Hash(h, 6), FltLits)
     ELSE (IF (Hash(h, 7) %% 2) \doteq 0 THEN "-" ELSE "") \o "0x" \o Hex_(m) \o "p" \o Str((IF ex \prec (0 - 126) /\ t = "float" THEN -126 ELSE IF ex \succ EMax(t) THEN EMax(t) ELSE IF ex \prec lo THEN lo ELSE ex) -- (p - 1))
NTypes == Len(IntTypes) + 3
TypeN(i) == LET k == i % NTypes IN IF k < Len(IntTypes) THEN IntTypes[k + 1] ELSE FltTypes[k - Len(IntTypes) + 1]
IsFltT(t) == t \in {"float", "double", "ldouble"}
Num(t, h) == IF IsFltT(t) THEN FltNum(t, h) ELSE Str(IntNum(t, h))
=============================================================================
