------------------------------ MODULE ArrayHeap ------------------------------
(***************************************************************************)
(* How the arrays are kept: a count and a pointer to a block of storage.   *)
(* Explored exhaustively: every block that is in use belongs to exactly    *)
(* one array, the block has the length the array claims, and the contents  *)
(* follow the sequences of ArrayMachine (variable seq).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxLen, Vals
VARIABLES count, ptr, heap, seq, valid
vars == <<count, ptr, heap, seq, valid>>
Arrays == 1..N
Null == 0
Blocks == 1..(N + 1)                          \* one more for a temporary
Used == {b \in Blocks : heap[b] # <<-1>>}
Free == <<-1>>                                \* contents of a block that is not in use
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxLen}
NewBlock(h) == CHOOSE b \in Blocks : h[b] = Free
Init == /\ count = [i \in Arrays |-> 0] /\ ptr = [i \in Arrays |-> Null] /\ heap = [b \in Blocks |-> Free]
        /\ seq = [i \in Arrays |-> <<>>] /\ valid = [i \in Arrays |-> TRUE]
Release(h, p) == IF p = Null THEN h ELSE [h EXCEPT ![p] = Free]
\* construct a temporary with contents s, then move it to i
Give(i, s) == LET b == IF s = <<>> THEN Null ELSE NewBlock(heap)
                  h1 == IF b = Null THEN heap ELSE [heap EXCEPT ![b] = s]
              IN /\ heap' = Release(h1, ptr[i])
                 /\ ptr' = [ptr EXCEPT ![i] = b] /\ count' = [count EXCEPT ![i] = Len(s)]
                 /\ seq' = [seq EXCEPT ![i] = s] /\ valid' = [valid EXCEPT ![i] = TRUE]
New(i) == \E s \in Seqs : Give(i, s)
\* copy assignment: through a temporary if the lengths differ, else element by element
Contents(i) == IF ptr[i] = Null THEN <<>> ELSE heap[ptr[i]]
CopyAssign(i, j) == /\ valid[j]
                    /\ IF count[i] # count[j] THEN Give(i, Contents(j))
                       ELSE /\ heap' = IF i = j \/ ptr[i] = Null THEN heap ELSE [heap EXCEPT ![ptr[i]] = Contents(j)]
                            /\ seq' = [seq EXCEPT ![i] = seq[j]] /\ valid' = [valid EXCEPT ![i] = TRUE] /\ UNCHANGED <<count, ptr>>
MoveAssign(i, j) == /\ valid[j]
                    /\ IF i = j THEN UNCHANGED vars
                       ELSE /\ heap' = Release(heap, ptr[i])
                            /\ ptr' = [ptr EXCEPT ![i] = ptr[j], ![j] = Null] /\ count' = [count EXCEPT ![i] = count[j], ![j] = 0]
                            /\ seq' = [seq EXCEPT ![i] = seq[j], ![j] = <<>>] /\ valid' = [valid EXCEPT ![i] = TRUE, ![j] = FALSE]
Swap(i, j) == /\ ptr' = [ptr EXCEPT ![i] = ptr[j], ![j] = ptr[i]] /\ count' = [count EXCEPT ![i] = count[j], ![j] = count[i]]
              /\ seq' = [seq EXCEPT ![i] = seq[j], ![j] = seq[i]] /\ valid' = [valid EXCEPT ![i] = valid[j], ![j] = valid[i]] /\ UNCHANGED heap
Set(i) == \E k \in 1..count[i], v \in Vals : heap' = [heap EXCEPT ![ptr[i]][k] = v] /\ seq' = [seq EXCEPT ![i][k] = v] /\ UNCHANGED <<count, ptr, valid>>
Next == \E i, j \in Arrays : New(i) \/ CopyAssign(i, j) \/ MoveAssign(i, j) \/ Swap(i, j) \/ Set(i)
Spec == Init /\ [][Next]_vars
Owned == {ptr[i] : i \in Arrays} \ {Null}
NoLeak == Used = Owned
NoSharing == \A i, j \in Arrays : i # j /\ ptr[i] # Null => ptr[i] # ptr[j]
Lengths == \A i \in Arrays : (ptr[i] = Null) = (count[i] = 0) /\ (ptr[i] # Null => Len(heap[ptr[i]]) = count[i])
Refines == \A i \in Arrays : Contents(i) = seq[i]
=============================================================================
