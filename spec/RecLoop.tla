------------------------------ MODULE RecLoop ------------------------------
(* Validation of recorded calls of the real code against an operator of the specification.                   *)
(* REC_FILE holds one JSON object per call.  Ok(r) says that record r is a behaviour the specification       *)
(* allows.  Records are checked in chunks so that all TLC workers share the work; each chunk is one state.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT Ok(_)
VARIABLES chunk, checked
Recs == ndJsonDeserialize(IOEnv.REC_FILE)
NRecs == Len(Recs)
ChunkSize == 50
RecInit == chunk \in 1..((NRecs + ChunkSize - 1) \div ChunkSize) /\ checked = FALSE
RecNext == checked = FALSE /\ checked' = TRUE /\ UNCHANGED chunk
RecSpec == RecInit /\ [][RecNext]_<<chunk, checked>>
RecHi == IF chunk * ChunkSize < NRecs THEN chunk * ChunkSize ELSE NRecs
RecordsAllowed ==
    checked => \A k \in ((chunk - 1) * ChunkSize + 1)..RecHi :
                  IF Ok(Recs[k]) THEN TRUE ELSE PrintT(<<"MISMATCH", k>>) /\ FALSE
=============================================================================
