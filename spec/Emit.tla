-------------------------------- MODULE Emit -------------------------------
(* Writes behaviours generated by TLC as one JSON line each to $GOUT.         *)
EXTENDS TLC, Json, IOUtils, Sequences
Emit(v) == Serialize(ToJson(v) \o "\n", IOEnv.GOUT,
             [format |-> "TXT", charset |-> "UTF-8",
              openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
