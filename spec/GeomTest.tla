------------------------------ MODULE GeomTest ------------------------------
EXTENDS Geom
Circ == [c |-> 1, v |-> << <<0, 0, G>>, <<2*U, 0, G>> >>]
Sq == [c |-> 1, v |-> << <<0,0,0>>, <<2*U,0,0>>, <<2*U,2*U,0>>, <<0,2*U,0>> >>]
Near(a, b, e) == Abs(a - b) <= e
ASSUME PrintT(<<Segs(Circ), Area2(Segs(Circ)), PathLen(Segs(Circ)), Wind(Segs(Circ), <<U, 0>>)>>)
ASSUME Near(Area2(Segs(Circ)), 6283185, 4) /\ Near(PathLen(Segs(Circ)), 6283185, 4)
ASSUME Wind(Segs(Circ), <<U, 999000>>) = 1 /\ Wind(Segs(Circ), <<U, 1001000>>) = 0
ASSUME Wind(Segs(RevPl(Circ)), <<U, 999000>>) = -1 
ASSUME Wind(Segs(Sq), <<U, 999000>>) = 1 /\ Area2(Segs(Sq)) = 8*U /\ Area2(Segs(RevPl(Sq))) = -8*U
ASSUME PrintT(Hits(Segs(Circ)[1], Segs(Sq)[1], 20))
ASSUME PrintT(Hits(Segs(Circ)[2], Segs(TurnPl(Sq,3,4,5))[1], 20))
ASSUME Simple(Sq, 1000) /\ Simple(Circ, 1000)
ASSUME SegBox(Segs(Circ)[1]) = <<0, -U, 2*U, 0>>
ASSUME PrintT(<<Atan(G), Atan(414213562), Atan(-200000000)>>)
ASSUME MinDist(Segs(Circ), <<U,0>>) = U
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
