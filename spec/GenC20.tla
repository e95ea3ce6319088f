------------------------------- MODULE GenC20 -------------------------------
EXTENDS GenBase
N == IF Thorough THEN 200000 ELSE 16000
\* exponents whose products and squares stay in range
Part(h) == LET c == Hash(h, 1) %% 10 IN
  CASE c = 0 -> PickSeq(Hash(h, 2), <<"0", "1", "-1", "2", "-0", "0.5", "10", "-3", "0", "0">>)
    [] c \preceq 3 -> Sized(Hash(h, 3), 1 + (Hash(h, 4) %% 14), -2, 2)
    [] c \preceq 5 -> Txt(Hash(h, 5) %% 2, 1 ++ (Hash(h, 6) %% 1000), 0)
    [] c = 6 -> Sized(Hash(h, 3), 1 + (Hash(h, 4) %% 14), -130, 130)
    [] c = 7 -> Sized(Hash(h, 3), 1 + (Hash(h, 4) %% 14), -2000, 2000)
    [] OTHER -> Operand(h, 14)
PartNZ(h) == LET p == Part(h) IN IF p \in {"0", "-0"} THEN "4" ELSE p
Zarg(h) == EArg(Part(Hash(h, 11))) \o EArg(Part(Hash(h, 12)))
\* not zero
ZNZ(h) == LET c == Hash(h, 13) %% 4 IN IF c = 0 THEN EArg(PartNZ(Hash(h, 11))) \o EArg("0") ELSE IF c = 1 THEN EArg("0") \o EArg(PartNZ(Hash(h, 12))) ELSE EArg(PartNZ(Hash(h, 11))) \o EArg(PartNZ(Hash(h, 12)))
Ints == <<0, 1, -1, 2, -2, 3, 10, 99999999, 100000000, -100000000, 2147483647, -2147483647>>
IntOf(h) == LET c == Hash(h, 1) %% 6 IN CASE c = 0 -> (2 ^^ 63) -- (1 ++ (Hash(h, 3) %% 2)) [] c = 1 -> 0 -- (2 ^^ 63) [] c = 2 -> (Hash(h, 4) %% (2 ^^ 64)) -- (2 ^^ 63) [] c = 3 -> (Hash(h, 4) %% (2 ^^ 34)) -- (2 ^^ 33) [] OTHER -> PickSeq(Hash(h, 2), Ints)
IntNZ(h) == LET n == IntOf(h) IN IF n \doteq 0 THEN 7 ELSE n
UInt(h) == LET c == Hash(h, 1) %% 3 IN CASE c = 0 -> (2 ^^ 64) -- (1 ++ (Hash(h, 3) %% 2)) [] c = 1 -> Hash(h, 3) %% (2 ^^ 64) [] OTHER -> 1 ++ (Hash(h, 3) %% (2 ^^ 33))
Flags(h) == PickSeq(Hash(h, 1), <<"", "", "f", "s", "s">>) \o PickSeq(Hash(h, 2), <<"", "p">>) \o PickSeq(Hash(h, 3), <<"", "", "+">>) \o PickSeq(Hash(h, 4), <<"", "", "u">>) \o PickSeq(Hash(h, 5), <<"", "l", "r", "i">>)
TPart(h) == IF (Hash(h, 1) %% 5) \doteq 0 THEN PickSeq(Hash(h, 2), <<"0", "1", "-1", "0.5", "99.5", "-0.00001", "123456789">>) ELSE Sized(Hash(h, 3), 1 + (Hash(h, 4) %% 14), -12, 24)
Bads == <<"abc", "(1,2", "1,2)", "(1;2)", "1e", "(+,1)", "((1,2))", "x1", "1.2.3", "(1,2,3)", "(-,-)", "1e+">>
RareB(h, z) == IF (Hash(h, 77) %% 8) \doteq 0 THEN EArg("0") \o EArg("0") ELSE z
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 32
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
      CL(op) == CaseLine("Z", i, op)
  IN CASE c \in {0, 1, 2} -> CL("cadd") \o Zarg(h1) \o Zarg(h2)
       [] c = 3 -> CL("csub") \o Zarg(h1) \o Zarg(IF (Hash(h, 3) %% 5) \doteq 0 THEN h1 ELSE h2)
       [] c \in {4, 5} -> CL("cmul") \o Zarg(h1) \o Zarg(h2)
       [] c \in {6, 7, 8} -> CL("cdiv") \o Zarg(h1) \o ZNZ(h2)
       [] c = 9 -> CL(PickSeq(Hash(h, 3), <<"cadds", "csubs", "cmuls", "cmuls">>)) \o Zarg(h1)
       [] c = 10 -> CL("cdivs") \o ZNZ(h1)
       [] c = 11 -> CL("cradd") \o Zarg(h1) \o EArg(Part(h2))
       [] c = 12 -> CL("crsub") \o Zarg(h1) \o EArg(Part(h2))
       [] c = 13 -> CL("crmul") \o Zarg(h1) \o EArg(Part(h2))
       [] c = 14 -> CL("crdiv") \o Zarg(h1) \o EArg(PartNZ(h2))
       [] c = 15 -> CL("rcadd") \o EArg(Part(h2)) \o Zarg(h1)
       [] c = 16 -> CL("rcsub") \o EArg(Part(h2)) \o Zarg(h1)
       [] c = 17 -> CL("rcmul") \o EArg(Part(h2)) \o Zarg(h1)
       [] c = 18 -> CL("rcdiv") \o EArg(Part(h2)) \o ZNZ(h1)
       [] c = 19 -> CL(PickSeq(Hash(h, 3), <<"cnadd", "cnsub", "cnmul">>)) \o Zarg(h1) \o IArg(IntOf(h2))
       [] c = 20 -> CL("cndiv") \o Zarg(h1) \o IArg(IntNZ(h2))
       [] c = 21 -> CL(PickSeq(Hash(h, 3), <<"cuadd", "cusub", "cumul", "cudiv">>)) \o Zarg(h1) \o IArg(UInt(h2))
       [] c = 22 -> CL("cctor") \o Zarg(h1) \o IArg(IntOf(h2))
       [] c \in {23, 24} -> CL("cun") \o Zarg(h1)
       [] c = 25 -> CL("crel") \o Zarg(h1) \o (LET q == Hash(h, 4) %% 4 IN IF q = 0 THEN Zarg(h1) ELSE IF q = 1 THEN EArg(Part(Hash(h1, 11))) \o EArg("0") ELSE IF q = 2 THEN EArg("0") \o EArg(Part(Hash(h1, 12))) ELSE Zarg(h2))
       [] c = 26 -> CL("crel") \o EArg(Part(h1)) \o EArg("0") \o EArg(IF (Hash(h, 4) %% 2) \doteq 0 THEN Part(h1) ELSE Part(h2)) \o EArg("0")
       [] c \in {27, 28} -> CL("cpowi") \o ZNZ(h1) \o IArg(IF (Hash(h, 4) %% 3) \doteq 0 THEN (Hash(h, 5) %% 1000) -- 500 ELSE (Hash(h, 5) %% 41) -- 20)
       [] c = 29 /\ (Hash(h, 6) %% 4) \doteq 0 -> CL("cbad") \o SArg(PickSeq(Hash(h, 5), Bads))
       [] OTHER -> CL("ctext") \o EArg(TPart(h1)) \o EArg(TPart(h2)) \o SArg(Flags(Hash(h, 3))) \o IArg(IF (Hash(h, 7) %% 3) \doteq 0 THEN 90 + (Hash(h, 4) %% 40) ELSE Hash(h, 4) %% 30) \o IArg(PickSeq(Hash(h, 5), <<0, 0, 10, 40, 100, 300>>)) \o SArg(PickSeq(Hash(h, 6), <<"%20", "*", "0">>))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
