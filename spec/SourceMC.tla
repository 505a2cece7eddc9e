------------------------------ MODULE SourceMC ------------------------------
EXTENDS Source
Models == {<<>>, <<[T |-> 30, g |-> 45, Z |-> 0, id |-> "m1"]>>,
           <<[T |-> 30, g |-> 45, Z |-> 0, id |-> "m1"], [T |-> 31, g |-> 45, Z |-> 5, id |-> "m2"], [T |-> 54, g |-> 40, Z |-> -5, id |-> "m3"]>>,
           <<[T |-> 54, g |-> 45, Z |-> 0, id |-> "m1"], [T |-> 54, g |-> 40, Z |-> 0, id |-> "m2"], [T |-> 53, g |-> 44, Z |-> 0, id |-> "m3"]>>}
Targets == {[has |-> h, T |-> T, M |-> 10, R |-> 10, D |-> 300, logg |-> 4438] : T \in {2900, 3010, 3080, 5380, 5520},
              h \in {{"R", "D", "M", "Teff"}, {"R", "D"}, {"D", "M", "Teff"}}}
Srcs == {[kind |-> k, folder |-> f] : k \in {"planck", "phoenix", "custom", "other"}, f \in {"models", "env", "none", "absent", "empty"}}
MScene == tgt.has = {} /\ \E m \in Models : \E t \in Targets : Scene(m, t)
MLoad == tgt.has # {} /\ \E s \in Srcs : \E r \in {<<1, 8>>, <<8, 1>>} : Load(s, r[1], r[2], 10)
MNext == MScene \/ MLoad
=============================================================================
