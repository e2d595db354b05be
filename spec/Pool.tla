-------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* The whole pipeline on the threads of its programs.  A callback that has *)
(* to wait keeps its thread; each topic is served in order, one message at *)
(* a time, by the program that subscribed to it.                           *)
(*                                                                         *)
(* Scan j is the j-th scan (from 1); when it comes the state of scan j - 1 *)
(* is made.  The front end hands over the state's image, waits until the   *)
(* state before it has been optimised, and hands over the cloud with the   *)
(* IMU interval and the barometer value.  (An interval sent before that    *)
(* wait could, without lidar, be answered before the callback looks: the   *)
(* state it waits for would have gone by.)  The cloud goes through the     *)
(* chain of filters to the registration (scan to scan, then scan to map)   *)
(* and the mapper.                                                         *)
(*                                                                         *)
(*   cfg  reg, refine, stereo, baro   the sources that are switched on     *)
(*        split                       one program for everything, or two   *)
(*        threads                     what each program was given          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS M,          \* scans
          Spare,      \* threads given beyond what is always enough
          Gen, MaxOps
VARIABLES cfg,
          st,      \* messages handed to each callback
          dn,      \* callbacks that have returned
          made,    \* states made by the front end
          hist,    \* callbacks in the order in which they began (when generating)
          wrote
vars == <<cfg, st, dn, made, hist, wrote>>

Names == {"imu", "format", "scan", "optimised", "chain", "init", "interval", "s2s", "s2m", "mapping", "registered", "track", "features", "pressure"}
Lidar == {"chain", "s2s", "s2m", "mapping", "registered"}
Callbacks(c) == {n \in Names : (n \in Lidar => c.reg) /\ (n \in {"track", "features"} => c.stereo) /\ (n = "pressure" => c.baro)}
Program(c, n) == IF c.split /\ n \notin {"imu", "format", "scan", "optimised", "chain"} THEN "back" ELSE "front"
\* callbacks that may keep a thread while they wait for other callbacks
Waiting(c) == {"scan", "interval", "s2m", "features", "pressure"} \cap Callbacks(c)
\* threads that are always enough
Enough(c, p) == Cardinality({n \in Waiting(c) : Program(c, n) = p}) + 1

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Poses == dn["init"] + dn["interval"]
Results == IF cfg.refine THEN Max(0, dn["s2s"] - 1) ELSE 0
Optimised == IF dn["init"] = 0 THEN 0
             ELSE LET a == dn["interval"]
                      b == IF cfg.reg THEN Min(a, dn["registered"]) ELSE a
                  IN 1 + IF cfg.stereo THEN Min(b, Max(0, dn["features"] - 1)) ELSE b
\* messages sent to each callback so far
Sent(n) == CASE n = "imu"        -> M + 1
             [] n = "format"     -> M
             [] n = "scan"       -> dn["format"]
             [] n = "chain"      -> Max(0, dn["scan"] - 1)
             [] n = "optimised"  -> Optimised
             [] n = "init"       -> Min(made, 1)
             [] n = "interval"   -> Max(0, dn["scan"] - 2)
             [] n = "s2s"        -> Min(dn["chain"], Poses)
             [] n = "mapping"    -> Min(dn["chain"], Optimised)
             [] n = "s2m"        -> dn["mapping"]
             [] n = "registered" -> IF cfg.refine THEN dn["s2m"] ELSE Max(0, dn["s2s"] - 1)
             [] n = "track"      -> made
             [] n = "features"   -> dn["track"]
             [] n = "pressure"   -> Max(0, dn["scan"] - 1)
Running(n) == st[n] > dn[n]
Busy(p) == Cardinality({n \in Callbacks(cfg) : Program(cfg, n) = p /\ Running(n)})
\* may the running callback return?
Return(n) == CASE n = "scan"     -> st[n] = 1 \/ (made = st[n] - 1 /\ dn["imu"] >= st[n] /\ dn["optimised"] = Max(1, made - 1))
               [] n = "interval" -> Optimised >= st[n]
               [] n = "s2m"      -> Results >= st[n]
               [] n = "features" -> Poses >= st[n]
               [] n = "pressure" -> Poses >= st[n]
               [] OTHER          -> TRUE
Programs(c) == IF c.split THEN {"front", "back"} ELSE {"front"}
Init == /\ cfg \in {c \in [reg : BOOLEAN, refine : BOOLEAN, stereo : BOOLEAN, baro : BOOLEAN, split : BOOLEAN] : c.refine => c.reg}
        /\ st = [n \in Names |-> 0] /\ dn = [n \in Names |-> 0] /\ made = 0 /\ hist = <<>> /\ wrote = FALSE
Begin(n) == /\ ~Running(n) /\ Sent(n) > st[n] /\ Busy(Program(cfg, n)) < Enough(cfg, Program(cfg, n)) + Spare
            /\ (Gen => Len(hist) < MaxOps)
            /\ st' = [st EXCEPT ![n] = @ + 1] /\ UNCHANGED <<cfg, dn, made, wrote>>
            /\ hist' = IF Gen THEN Append(hist, [op |-> "go", c |-> n]) ELSE hist
Make == /\ Running("scan") /\ st["scan"] > 1 /\ made = st["scan"] - 2 /\ dn["imu"] >= made + 1
        /\ made' = made + 1 /\ UNCHANGED <<cfg, st, dn, hist, wrote>>
End(n) == Running(n) /\ Return(n) /\ dn' = [dn EXCEPT ![n] = @ + 1] /\ UNCHANGED <<cfg, st, made, hist, wrote>>
\* nothing is left to do: every state is optimised, and only the last map waits for a scan to be matched with it
Finished == /\ dn["scan"] = M /\ dn["imu"] = M + 1 /\ made = M - 1 /\ Optimised = M - 1
            /\ \A n \in Callbacks(cfg) \ {"s2m"} : Sent(n) = st[n] /\ ~Running(n)
Seed == (Len(hist) * 7919 + dn["imu"] * 104729 + st["scan"] * 1299709) % 1000003
Write == /\ Gen /\ ~wrote /\ wrote' = TRUE /\ (Len(hist) = MaxOps \/ Finished)
         /\ \E s \in {RandomElement(1 .. (1000000 + Seed))} :
              Serialize(ToJson(<<[op |-> "sys", m |-> M, reg |-> cfg.reg, refine |-> cfg.refine, stereo |-> cfg.stereo, baro |-> cfg.baro, split |-> cfg.split, s |-> s]>> \o hist) \o "\n",
                        IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
         /\ UNCHANGED <<cfg, st, dn, made, hist>>
Next == Write \/ (\E n \in Callbacks(cfg) : Begin(n) \/ End(n)) \/ Make \/ (~Gen /\ Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
TypeOK == \A n \in Names : dn[n] <= st[n] /\ st[n] <= dn[n] + 1 /\ (n \in Callbacks(cfg) => st[n] <= Sent(n)) /\ (n \notin Callbacks(cfg) => st[n] = 0)
\* nothing overtakes what it is made from
InOrder == Optimised <= made /\ Poses <= made /\ Results <= Optimised /\ dn["chain"] <= made
Capacity == \A p \in Programs(cfg) : Busy(p) <= Enough(cfg, p) + Spare
=============================================================================
