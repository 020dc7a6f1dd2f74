--------------------------- MODULE AvoidanceNode ---------------------------
(***************************************************************************)
(* The companion-process supervisor shared by the planners: what it tells  *)
(* the flight controller about its own health, which flight-controller     *)
(* parameters it believes, how often it asks for them, and which cruise    *)
(* speed the mission demands.                                              *)
(* Durations are integers in milliseconds.                                 *)
(***************************************************************************)
EXTENDS VPLib

Boot == 1   Standby == 3   Active == 4   Critical == 5   Termination == 8
AllStatus == 0..8

TimeoutTermination == 15000
TimeoutCritical == 500
TimeoutStartup == 5000
ComponentAvoidance == 196
CmdChangeSpeed == 178

FloatParams == {"MPC_ACC_DOWN_MAX", "MPC_ACC_HOR", "MPC_ACC_UP_MAX", "MPC_JERK_MIN", "MPC_JERK_MAX",
                "MPC_LAND_SPEED", "MPC_TKO_SPEED", "MPC_XY_CRUISE", "MPC_Z_VEL_MAX_DN", "MPC_Z_VEL_MAX_UP",
                "CP_DIST", "NAV_ACC_RAD", "MPC_YAWRAUTO_MAX"}
IntParams == {"MPC_AUTO_MODE"}
AllParams == FloatParams \union IntParams
Polled == FloatParams \ {"MPC_JERK_MIN", "MPC_TKO_SPEED"}

VARIABLES status,   \* companion state reported in the heartbeat
          hover,    \* hover request handed back to the planner by the last health evaluation
          params,   \* believed flight-controller parameters
          speed     \* cruise speed demanded by the mission (NaN: none)
nodeVars == <<status, hover, params, speed>>

NodeInit == /\ status = Standby
            /\ hover = FALSE
            /\ params = [p \in AllParams |-> IF p \in IntParams THEN -1 ELSE NaN]
            /\ speed = NaN

Startup == status' = Boot /\ UNCHANGED <<hover, params, speed>>

(* Health evaluation: no data for `cloud` ms, running for `start` ms.         *)
Terminate(cloud, start) == cloud > TimeoutTermination /\ start > TimeoutTermination
Degrade(cloud, start)   == cloud > TimeoutCritical /\ start > TimeoutStartup
Health(cloud, start, h) ==
  /\ UNCHANGED <<params, speed>>
  /\ IF Terminate(cloud, start) THEN status' = Termination /\ hover' = h
     ELSE IF Degrade(cloud, start) THEN status' = Critical /\ hover' = TRUE
     ELSE /\ hover' = h
          /\ status' = IF h THEN status ELSE Active

SetStatus(s) == status' = s /\ UNCHANGED <<hover, params, speed>>

Heartbeat == UNCHANGED nodeVars    \* publishes <<ComponentAvoidance, status>>

(* The flight controller announces one parameter. *)
Announce(id, real, int) ==
  /\ params' = IF id \in FloatParams THEN [params EXCEPT ![id] = real]
               ELSE IF id \in IntParams THEN [params EXCEPT ![id] = int] ELSE params
  /\ UNCHANGED <<status, hover, speed>>

(* One polling round: the service answers reply[p] (or fails: FailReply). *)
FailReply == 2000000003
Poll(reply) ==
  /\ params' = [p \in AllParams |-> IF p \in Polled /\ reply[p] # FailReply THEN reply[p] ELSE params[p]]
  /\ UNCHANGED <<status, hover, speed>>
PollPause(ps) == IF \E p \in Polled : ~IsFinite(ps[p]) THEN 5 ELSE 30   \* seconds until the next round

(* A mission: sequence of items [current, command, type, speed]. *)
SpeedItem(it) == it.command = CmdChangeSpeed /\ it.type <= 1 /\ it.speed > 0
Current(items) == CHOOSE k \in 1..Len(items) : items[k].current /\ \A j \in 1..(k-1) : ~items[j].current
Mission(items) ==
  LET has == \E k \in 1..Len(items) : items[k].current
      cands == IF has THEN {k \in 1..Current(items) : SpeedItem(items[k])} ELSE {}
      best == CHOOSE k \in cands : \A j \in cands : j <= k
  IN /\ speed' = IF cands = {} THEN speed ELSE items[best].speed
     /\ UNCHANGED <<status, hover, params>>
=============================================================================
