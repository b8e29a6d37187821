-------------------------------- MODULE Nets --------------------------------
(* Small interferometers used by the design models.                         *)
EXTENDS Optics

Net(g, d) == LET b == [g |-> MatN(g), d |-> d]
                 k == Defect(b)
             IN  [g |-> b.g, d |-> d, k |-> k, m |-> Len(d),
                  unitary |-> \A i, j \in 1..Len(d) : IsZeroN(k[i][j])]
R(x) == <<x, 0>>
I(x) == <<0, x>>
Had2  == TLCEval(Net(<< <<R(1), R(1)>>, <<R(1), R(-1)>> >>, <<2, 2>>))
Rot2  == TLCEval(Net(<< <<R(3), I(4)>>, <<I(4), R(3)>> >>, <<25, 25>>))
Id2   == TLCEval(Net(<< <<R(1), R(0)>>, <<R(0), R(1)>> >>, <<1, 1>>))
Hous3 == TLCEval(Net(<< <<R(1), R(-2), R(-2)>>, <<R(-2), R(1), R(-2)>>, <<R(-2), R(-2), R(1)>> >>, <<9, 9, 9>>))
Cplx3 == TLCEval(Net(<< <<R(1), I(2), R(-2)>>, <<I(-2), R(1), I(-2)>>, <<R(-2), I(2), R(1)>> >>, <<9, 9, 9>>))
\* not unitary
Tri2   == TLCEval(Net(<< <<R(1), R(1)>>, <<R(0), I(1)>> >>, <<4, 4>>))
Half3  == TLCEval(Net(<< <<R(1), I(2), R(-2)>>, <<I(-2), R(1), I(-2)>>, <<R(-2), I(2), R(1)>> >>, <<36, 36, 36>>))
Col3   == TLCEval(Net(<< <<R(1), R(-2), R(-2)>>, <<R(-2), R(1), R(-2)>>, <<R(-2), R(-2), R(1)>> >>, <<9, 36, 18>>))
\* arbitrary integer matrices (permanents need no unitarity)
Any3   == TLCEval(Net(<< <<<<1, 2>>, R(3), I(-1)>>, <<R(0), <<2, -1>>, R(5)>>, <<I(4), R(-2), <<1, 1>>>> >>, <<1, 1, 1>>))
Any2   == TLCEval(Net(<< <<<<2, 1>>, R(0)>>, <<I(3), <<-1, 2>>>> >>, <<1, 1>>))
Any1   == TLCEval(Net(<< <<<<2, -3>>>> >>, <<1>>))
ASSUME /\ \A u \in {Had2, Rot2, Id2, Hous3, Cplx3} : u.unitary
       /\ \A u \in {Tri2, Half3, Col3} : ~u.unitary
\* the unitary one-particle beam splitter dilation of column losses: a lossy network
\* "unitary times diagonal losses" dilated by one loss mode per input mode
=============================================================================
