------------------------------ MODULE FrontEnv ------------------------------
(***************************************************************************)
(* The front end among its inputs: every order of IMU samples, scans,      *)
(* camera frames, barometer measurements, optimiser replies and the waits  *)
(* of the scan callback.  Model-checked (FrontMC*.cfg) for small streams,  *)
(* and simulated (FrontGen*.cfg) to generate the arrival orders played to  *)
(* the real node.                                                          *)
(***************************************************************************)
EXTENDS Front, TLC, Json, IOUtils
CONSTANTS Stereo, Baro, MaxImu, MaxScan, MaxFrame, MaxBaro, Gaps, ScanGaps, Sweeps, Gen, MaxOps
VARIABLES imu, scans, sweeps, frames, baros,   \* streams delivered so far
   ph, newT, prevT, initd, biasT, pend,        \* the scan callback and the optimiser's replies
   buf,                                        \* first sample still held
   sent, states, waiting, press,               \* what went out: arrays of samples, states, pressures
   hist, nops
vars == <<imu, scans, sweeps, frames, baros, ph, newT, prevT, initd, biasT, pend, buf, sent, states, waiting, press, hist, nops>>
streams == <<imu, scans, sweeps, frames, baros>>
Init == /\ imu = <<0>> /\ scans = <<>> /\ sweeps = <<>> /\ frames = <<>> /\ baros = <<>>
        /\ ph = "idle" /\ newT = 0 /\ prevT = -1 /\ initd = FALSE /\ biasT = -1 /\ pend = <<>> /\ buf = 1
        /\ sent = <<>> /\ states = <<>> /\ waiting = <<>> /\ press = <<>> /\ hist = <<>> /\ nops = 0
Op(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Outs == <<sent, states, waiting, press>>
Cb == <<ph, newT, prevT, initd, biasT, pend, buf>>
LastOr(s, d) == IF s = <<>> THEN d ELSE Last(s)
\* serve what can be served, in order
Serve(bs, w) == LET n == Served(bs, w) IN
   /\ press' = press \o [k \in 1..n |-> [t |-> w[k], how |-> Pressure(bs, w[k]).how, i |-> Pressure(bs, w[k]).i]]
   /\ waiting' = SubSeq(w, n + 1, Len(w))
Imu(d) == Len(imu) < MaxImu /\ imu' = Append(imu, Last(imu) + d) /\ Op([op |-> "imu", d |-> d])
   /\ UNCHANGED <<scans, sweeps, frames, baros, Cb, Outs>>
Frame(d) == Stereo /\ Len(frames) < MaxFrame /\ frames' = Append(frames, LastOr(frames, 0) + d) /\ Op([op |-> "frame", d |-> d])
   /\ UNCHANGED <<imu, scans, sweeps, baros, Cb, Outs>>
Press(d) == Baro /\ Len(baros) < MaxBaro /\ baros' = Append(baros, LastOr(baros, 0) + d) /\ Op([op |-> "baro", d |-> d])
   /\ Serve(baros', waiting) /\ UNCHANGED <<imu, scans, sweeps, frames, Cb, sent, states>>
\* scans queue up behind the callback; w the time the sweep takes
Scan(d, w) == Len(scans) < MaxScan /\ w <= d /\ scans' = Append(scans, LastOr(scans, 1) + d) /\ sweeps' = Append(sweeps, w) /\ Op([op |-> "scan", d |-> d, w |-> w])
   /\ UNCHANGED <<imu, frames, baros, Cb, Outs>>
\* the callback has handled done + 1 scans when idle
done == Len(states)
Prev == scans[done + 1]
NextS == scans[done + 2]
Begin == ph = "idle" /\ Len(scans) >= done + 2 /\ ph' = "frame" /\ UNCHANGED <<newT, prevT, initd, biasT, pend, buf>>
PickFrame == ph = "frame" /\ (Stereo => FrameKnown(frames, Prev)) /\ newT' = (IF Stereo THEN StateTime(frames, Prev, NextS) ELSE Prev)
   /\ ph' = "imu" /\ UNCHANGED <<prevT, initd, biasT, pend, buf>>
HaveImu(t) == Last(imu) >= t
\* the first state goes to the optimiser at once: its reply is needed for the first scan.
Known == ph = "imu" /\ HaveImu(newT) /\ ph' = "bias" /\ UNCHANGED <<newT, initd, biasT, buf>>
   /\ IF initd THEN UNCHANGED <<prevT, pend>> ELSE prevT' = newT /\ pend' = Append(pend, newT)
\* The samples go out with the cloud, not before: the optimiser may reply as soon as it has them, and the callback
\* still needs its reply about the state before (sent earlier, Live fails).
Publish == ph = "bias" /\ biasT = prevT /\ HaveImu(Prev + sweeps[done + 1]) /\ ph' = "idle" /\ prevT' = newT /\ initd' = TRUE
   /\ pend' = (IF initd THEN Append(pend, newT) ELSE pend) /\ states' = Append(states, newT) /\ UNCHANGED <<newT, biasT>>
   /\ (IF initd THEN LET held == SubSeq(imu, buf, Len(imu))
                        n == Needed(held, prevT, newT)
                    IN sent' = Append(sent, [a |-> prevT, b |-> newT, s |-> {buf + i - 1 : i \in n}]) /\ buf' = buf + LeastOf(n) - 1
      ELSE UNCHANGED <<sent, buf>>)
   /\ IF Baro THEN Serve(baros, Append(waiting, newT)) ELSE UNCHANGED <<waiting, press>>
Callback == UNCHANGED <<streams, hist>> /\ \/ (Begin \/ PickFrame \/ Known) /\ UNCHANGED Outs
                                           \/ Publish
Reply == pend # <<>> /\ biasT' = pend[1] /\ pend' = Tail(pend) /\ Op([op |-> "reply"]) /\ UNCHANGED <<streams, ph, newT, prevT, initd, buf, Outs>>
Step == \/ \E d \in Gaps : Imu(d) \/ Frame(d) \/ Press(d)
        \/ \E d \in ScanGaps, w \in Sweeps : Scan(d, w)
        \/ Callback \/ Reply
\* ---- generated arrival orders: streams drift apart but not without limit; the callbacks run in between ("run")
Pick(S, P(_)) == S # {} /\ \E x \in {RandomElement(S)} : P(x)
Rnd(n) == RandomElement(1..(n + 0 * nops))
Lag == LastOr(scans, 1) - Last(imu)
Run == Op([op |-> "run", n |-> Rnd(12)]) /\ UNCHANGED <<streams, Cb, Outs>>
Ask == Op([op |-> "reply"]) /\ UNCHANGED <<streams, Cb, Outs>>
GenStep == \/ \E n \in 1..(IF Lag > 4 THEN 12 ELSE 4) : Lag > -40 /\ Pick(Gaps, Imu)
           \/ \E n \in 1..(IF Lag < -8 THEN 6 ELSE 1) : Lag < 20 /\ Pick(ScanGaps \X Sweeps, LAMBDA x : Scan(x[1], x[2]))
           \/ \E n \in 1..2 : LastOr(frames, 0) < LastOr(scans, 1) + 20 /\ Pick(Gaps, LAMBDA d : Frame(2 * d))
           \/ \E n \in 1..2 : LastOr(baros, 0) < LastOr(scans, 1) + 20 /\ Pick(Gaps, LAMBDA d : Press(3 * d))
           \/ \E n \in 1..3 : Run \/ Ask
Write == /\ Gen /\ nops = MaxOps
         /\ LET r == Serialize(ToJson(<<[op |-> "cfg", stereo |-> Stereo, baro |-> Baro, s |-> RandomElement(1..(1000000 + nops))]>> \o hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
         /\ nops' = nops + 1 /\ UNCHANGED <<streams, Cb, Outs, hist>>
Next == (IF Gen THEN nops < MaxOps /\ nops' = nops + 1 /\ GenStep ELSE nops' = 0 /\ Step) \/ Write
Spec == Init /\ [][Next]_vars

\* ---- what the properties say, whatever has arrived since
Rising(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
StatesRise == Rising(states)
StatesRight == \A k \in DOMAIN states : states[k] = IF Stereo THEN StateTime(frames, scans[k], scans[k + 1]) ELSE scans[k]
Cover == \A k \in DOMAIN sent : /\ sent[k].s = Needed(imu, sent[k].a, sent[k].b)
                                /\ (k > 1 => sent[k].a = sent[k - 1].b)
                                /\ (\E i \in sent[k].s : imu[i] <= sent[k].a)
NoneLost == \A i \in DOMAIN imu : (sent # <<>> /\ sent[1].a <= imu[i] /\ imu[i] < Last(sent).b) => \E k \in DOMAIN sent : i \in sent[k].s
Shared == \A k \in 2..Len(sent) : Cardinality(sent[k].s \intersect sent[k - 1].s) = IF \E i \in DOMAIN imu : imu[i] = sent[k].a THEN 0 ELSE 1
PressRight == \A k \in DOMAIN press : press[k].t = states[k] /\ press[k].how = Pressure(baros, states[k]).how /\ press[k].i = Pressure(baros, states[k]).i
PressAll == Len(press) = Served(baros, states)
\* enough input and every reply given: the callback is never stuck
Stuck == ~ENABLED (Callback \/ Reply)
Live == (Stuck /\ Len(scans) >= done + 2) => (Stereo /\ ~FrameKnown(frames, Prev)) \/ (ph = "imu" /\ ~HaveImu(newT)) \/ (ph = "bias" /\ ~HaveImu(Prev + sweeps[done + 1]))
=============================================================================
