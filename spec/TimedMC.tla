------------------------------- MODULE TimedMC -------------------------------
(* Time advances tick by tick, the input changes, and streams are made and closed, also while one of them fires.       *)
EXTENDS Timed, TLC
CONSTANTS MaxTime, Period, MaxStreams
VARIABLES fires      \* (stream, time, value) of the firings
Init == now = 0 /\ x = 0 /\ streams = <<>> /\ fires = {}
Values == 0 .. 2
Next ==
  \/ now < MaxTime /\ Pass(now + 1) /\ streams' = After(now + 1) /\ UNCHANGED <<x, fires>>
  \/ Len(streams) < MaxStreams /\ (\E kind \in {"deb", "samp"}, p \in {Period, Period - 1} : Create(now, kind, p)) /\ UNCHANGED fires
  \/ (\E v \in Values : v # x /\ Change(now, v)) /\ UNCHANGED fires
  \/ (\E k \in Ids : streams[k].open /\ Close(now, k)) /\ UNCHANGED fires
  \/ \E k \in Ids, v \in Values : Fire(now, k, v) /\ fires' = fires \union {<<k, now, v>>}
Spec == Init /\ [][Next]_<<vars, fires>>
(* what came last is delivered within a period, or the stream is closed *)
InTime == \A s \in Ids : (streams[s].open /\ streams[s].dirty) => (streams[s].due # Never /\ streams[s].due <= now + streams[s].period /\ streams[s].due >= now)
Delivered == \A s \in Ids : (streams[s].open /\ ~streams[s].dirty) => (streams[s].val = x /\ streams[s].fired # Never)
OnePerPeriod == \A a, b \in fires : (a[1] = b[1] /\ a[2] < b[2]) => b[2] - a[2] >= streams[a[1]].period
AfterClose == [][\A k \in Ids : ~streams[k].open => {f \in fires' : f[1] = k} = {f \in fires : f[1] = k}]_<<vars, fires>>
(* time is never stuck: something is due, or time can pass *)
Progress == (now < MaxTime) => ((\A s \in Ids : CanPass(streams[s], now + 1)) \/ \E k \in Ids : streams[k].open /\ streams[k].dirty /\ streams[k].due = now)
=============================================================================
