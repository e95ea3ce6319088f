------------------------------- MODULE GenC07 -------------------------------
EXTENDS GenTypes
(* Every built-in type x its numbers x operands: special values, operands  *)
(* of comparable size, limb patterns that carry and vanish, range ends.    *)
N == IF Thorough THEN 150000 ELSE 15000
Case(i) ==
  LET h == Hash(Seed, i)
      t == TypeN(i)
      num == Num(t, Hash(h, 1))
      c == Hash(h, 2) %% 8
      v == IntNum(t, Hash(h, 1))
      x == CASE c = 0 -> PickSeq(Hash(h, 3), Specials)
             [] c \in {1, 2, 3} -> Txt(Hash(h, 4) %% 2, Mant(Hash(h, 5) %% 8, 1 + (Hash(h, 6) %% 16), Hash(h, 7)), (0 -- (8 * (Hash(h, 6) %% 16))) ++ PickSeq(Hash(h, 8), <<0, 0, 8, 16, -8, -3, 5, -20, 24>>))
             [] c = 4 -> IF IsFltT(t) THEN Operand(Hash(h, 3), 16) ELSE Txt(Hash(h, 4) %% 2, v, 0)                   \* the number itself or its negative
             [] c = 5 -> IF IsFltT(t) THEN Operand(Hash(h, 3), 16) ELSE Txt(Hash(h, 4) %% 2, v ** Mant(Hash(h, 5) %% 8, 1 + (Hash(h, 6) %% 13), Hash(h, 7)), PickSeq(Hash(h, 8), Exps))   \* a multiple of it
             [] c = 6 -> Operand(Hash(h, 3), 16)
             [] c = 7 -> LET be == PickSeq(Hash(h, 9), <<"2147483610", "646392565", "323196285", "-2147483610", "-646392566", "-323196286">>)
                         IN IF i % 4 = 0 THEN Txt(Hash(h, 4) %% 2, Mant(Hash(h, 5) %% 8, 2, Hash(h, 7)), Dec(be) -- 15 ++ (Hash(h, 10) %% 12)) ELSE Operand(Hash(h, 3), 16)
  IN CaseLine("T", i, "mix_" \o t) \o EArg(x) \o SArg(num)
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
