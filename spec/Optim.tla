-------------------------------- MODULE Optim --------------------------------
(***************************************************************************)
(* The back end: which states are optimised, and what each contributes.    *)
(* on: the kinds of factors that are switched on, of {"imu", "reg",        *)
(* "stereo", "baro"}.  State 0 comes from the initial odometry, state k    *)
(* from the k-th IMU interval; registration k is the motion from state     *)
(* k - 1 to k; stereo frames and barometer values carry their state's time *)
(* and may skip states.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LowOf(S) == CHOOSE x \in S : \A y \in S : x <= y
HighOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* the last state that can be optimised (-1: none): it and every state before it have all that was switched on.
\* imu, reg: how many came; frames: states with a stereo frame - a frame also settles all earlier states
Reached(on, init, imu, reg, frames) ==
   IF ~init THEN -1
   ELSE LowOf({imu} \union (IF "reg" \in on THEN {reg} ELSE {})
                     \union (IF "stereo" \in on THEN {IF frames = {} THEN 0 ELSE HighOf(frames)} ELSE {}))
\* states whose predicted pose exists: one more than what is optimised
Predicted(on, init, imu, reg, frames) == IF ~init THEN -1 ELSE IF Reached(on, init, imu, reg, frames) + 1 <= imu THEN Reached(on, init, imu, reg, frames) + 1 ELSE imu
\* barometer: the links of the bias chain a value at state b adds when the last one was at state p (-1: none)
Links(p, b) == IF p = -1 THEN 1..b ELSE (p + 1)..b
=============================================================================
