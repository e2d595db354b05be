------------------------------ MODULE OptimEnv -------------------------------
(***************************************************************************)
(* The back end node among its inputs.  Every topic is served in order,    *)
(* one callback at a time, and a callback whose condition does not hold    *)
(* waits.  The registration of state k needs the motion guess the node     *)
(* sent for it.  Model-checked, and simulated for the arrival orders that  *)
(* are played to the real node.                                            *)
(***************************************************************************)
EXTENDS Optim, TLC, Json, IOUtils
CONSTANTS Max, On, Gen, MaxOps
VARIABLES init, sent, frames, baros, imu, reg, ster, bar, optd, regq, frameq, baroq, added, hist, nops
vars == <<init, sent, frames, baros, imu, reg, ster, bar, optd, regq, frameq, baroq, added, hist, nops>>
\* init: 0 not sent, 1 sent, 2 handled.  sent, imu, reg: counts.  ster: last state settled.  bar: last state visited.
\* optd: the states optimised so far, in order.  added: what was attached to which state
Init == /\ init = 0 /\ sent = 0 /\ frames = <<>> /\ baros = <<>> /\ imu = 0 /\ reg = 0 /\ ster = -1 /\ bar = 0 /\ optd = <<>>
        /\ regq = 0 /\ frameq = <<>> /\ baroq = <<>> /\ added = {} /\ hist = <<>> /\ nops = 0
opt == IF optd = <<>> THEN -1 ELSE optd[Len(optd)]
LastOf(s) == IF s = <<>> THEN -1 ELSE s[Len(s)]
Min(i, r, s) == LowOf({i} \union (IF "reg" \in On THEN {r} ELSE {}) \union (IF "stereo" \in On THEN {s} ELSE {}))
\* ---- inputs
SendInit == init = 0 /\ init' = 1 /\ UNCHANGED <<sent, frames, baros, imu, reg, ster, bar, optd, regq, frameq, baroq, added>>
SendImu == sent < Max /\ sent' = sent + 1 /\ UNCHANGED <<init, frames, baros, imu, reg, ster, bar, optd, regq, frameq, baroq, added>>
SendReg == "reg" \in On /\ reg + regq < imu /\ regq' = regq + 1 /\ UNCHANGED <<init, sent, frames, baros, imu, reg, ster, bar, optd, frameq, baroq, added>>
SendFrame(d) == "stereo" \in On /\ LastOf(frames) + d <= Max /\ frames' = Append(frames, LastOf(frames) + d) /\ frameq' = Append(frameq, LastOf(frames) + d)
                /\ UNCHANGED <<init, sent, baros, imu, reg, ster, bar, optd, regq, baroq, added>>
SendBaro(d) == "baro" \in On /\ LastOf(baros) + d <= Max /\ baros' = Append(baros, LastOf(baros) + d) /\ baroq' = Append(baroq, LastOf(baros) + d)
               /\ UNCHANGED <<init, sent, frames, imu, reg, ster, bar, optd, regq, frameq, added>>
\* ---- callbacks
Odometry == init = 1 /\ init' = 2 /\ optd' = <<0>> /\ UNCHANGED <<sent, frames, baros, imu, reg, ster, bar, regq, frameq, baroq, added>>
ImuArray == init = 2 /\ imu < sent /\ opt = imu /\ imu' = imu + 1
            /\ optd' = (IF "imu" \in On /\ Min(imu + 1, reg, ster) = imu + 1 THEN Append(optd, imu + 1) ELSE optd)
            /\ UNCHANGED <<init, sent, frames, baros, reg, ster, bar, regq, frameq, baroq, added>>
Registration == regq > 0 /\ regq' = regq - 1 /\ reg' = reg + 1 /\ added' = added \union {<<"reg", reg + 1, reg + 1>>}
                /\ optd' = (IF Min(imu, reg + 1, ster) = reg + 1 THEN Append(optd, reg + 1) ELSE optd)
                /\ UNCHANGED <<init, sent, frames, baros, imu, ster, bar, frameq, baroq>>
\* one turn of the stereo callback: the next state has a pose, and the frame is its own or for a later state
Stereo == /\ frameq # <<>> /\ init = 2 /\ imu >= ster + 1 /\ ster' = ster + 1
          /\ IF frameq[1] = ster + 1 THEN frameq' = Tail(frameq) /\ added' = added \union {<<"stereo", frameq[1], ster + 1>>} ELSE UNCHANGED <<frameq, added>>
          /\ optd' = (IF Min(imu, reg, ster + 1) = ster + 1 /\ ster + 1 > 0 THEN Append(optd, ster + 1) ELSE optd)
          /\ UNCHANGED <<init, sent, frames, baros, imu, reg, bar, regq, baroq>>
Barometer == /\ baroq # <<>> /\ init = 2 /\ imu >= bar
             /\ IF bar = baroq[1] THEN added' = added \union {<<"baro", baroq[1], bar>>} /\ baroq' = Tail(baroq) ELSE UNCHANGED <<added, baroq>>
             /\ bar' = bar + 1 /\ UNCHANGED <<init, sent, frames, baros, imu, reg, ster, optd, regq, frameq>>
Node == Odometry \/ ImuArray \/ Registration \/ Stereo \/ Barometer
Env == SendInit \/ SendImu \/ SendReg \/ (\E d \in 1..2 : SendFrame(d) \/ SendBaro(d))
Step == (Env \/ Node) /\ UNCHANGED <<hist, nops>>
Rnd(n) == RandomElement(1..(n + 0 * nops))
\* ---- scenarios: the harness sends what is asked for (a registration only once its guess is out)
GenStep == /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<imu, reg, ster, bar, optd, regq, frameq, baroq, added>>
           /\ \/ init = 0 /\ nops + Rnd(8) > 2 /\ init' = 1 /\ hist' = Append(hist, [op |-> "init"]) /\ UNCHANGED <<sent, frames, baros>>
              \/ sent < Max /\ sent' = sent + 1 /\ hist' = Append(hist, [op |-> "imu"]) /\ UNCHANGED <<init, frames, baros>>
              \/ hist' = Append(hist, [op |-> "reg"]) /\ UNCHANGED <<init, sent, frames, baros>>
              \/ \E d \in {RandomElement({1, 1, 1, 1, 2} \union {1 + 0 * nops})} : LastOf(frames) + d <= Max /\ frames' = Append(frames, LastOf(frames) + d)
                                                           /\ hist' = Append(hist, [op |-> "stereo", k |-> LastOf(frames) + d]) /\ UNCHANGED <<init, sent, baros>>
              \/ \E d \in {IF Rnd(3) = 1 THEN 2 ELSE 1} : LastOf(baros) + d <= Max /\ baros' = Append(baros, LastOf(baros) + d)
                                                           /\ hist' = Append(hist, [op |-> "baro", k |-> LastOf(baros) + d]) /\ UNCHANGED <<init, sent, frames>>
              \/ hist' = Append(hist, [op |-> "run", n |-> Rnd(12)]) /\ UNCHANGED <<init, sent, frames, baros>>
Write == Gen /\ nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<init, sent, frames, baros, imu, reg, ster, bar, optd, regq, frameq, baroq, added, hist>>
         /\ LET r == Serialize(ToJson(<<[op |-> "cfg", s |-> RandomElement(1..(1000000 + nops))]>> \o hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
Next == (IF Gen THEN GenStep ELSE Step) \/ Write
Spec == Init /\ [][Next]_vars

\* ---- what the property says
Frames == {frames[i] : i \in DOMAIN frames}
InOrder == optd = [i \in DOMAIN optd |-> i - 1]
OwnState == \A a \in added : a[2] = a[3]
\* everything a state needs is there when it is optimised
Complete == \A i \in DOMAIN optd : LET k == optd[i] IN k = 0 \/ (imu >= k /\ ("reg" \in On => reg >= k) /\ ("stereo" \in On => ster >= k))
\* once nothing moves, as far as the messages allow - whatever order they came in
NoneLeft == ~ENABLED (Node /\ UNCHANGED <<hist, nops>>) => /\ opt = Reached(On, init = 2, sent, reg + regq, Frames) /\ regq = 0
                             /\ imu = (IF init = 2 THEN Predicted(On, TRUE, sent, reg, Frames) ELSE 0)
                             /\ (\A i \in DOMAIN baros : init = 2 /\ baros[i] <= imu => <<"baro", baros[i], baros[i]>> \in added)
                             /\ (\A i \in DOMAIN frames : init = 2 /\ frames[i] <= imu => <<"stereo", frames[i], frames[i]>> \in added)
=============================================================================
