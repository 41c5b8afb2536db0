------------------------------ MODULE Pipeline ------------------------------
(* What can be observed of one mapping session: scans go in; pairwise          *)
(* registrations (front end), submap registrations (back end), progress        *)
(* callbacks and result files come out.                                        *)
(*                                                                             *)
(*   c       configuration of the session                                      *)
(*   part    scans offered since the last merged one, <<points as given, time>> *)
(*   kept    merged scans to be registered, in order: [pts, t]; one without any *)
(*           point or older than the one kept last is passed over              *)
(*   sure    number of those whose insertion returned before finishing began   *)
(*   reg     number of merged scans registered so far                          *)
(*   kf      key frames, oldest first: [pts, t, pose]                          *)
(*   begun, done  submaps whose registration to the predecessor began / ended  *)
(*   rel     rel[s] = relation of submap s to its predecessor                  *)
(*   shown   number of submaps shown; path = length of the last path shown     *)
(*   fin     "no", "yes" (requested), "over" (returned)                        *)
(*   x       trail: the last two registered scans [t, pose]; loops: accepted   *)
(*           loop registrations <<target, source>>; fixes: recorded position   *)
(*           fixes [t, p, ok]; imu0: time of the first inertial sample or -1   *)
(*                                                                             *)
(* Guards are tagged with the property they belong to, T("P01") etc.; a        *)
(* history is judged for the properties in Tags only.                          *)
EXTENDS Rigid, FiniteSets
PK == INSTANCE Packages

CONSTANT Tags
VARIABLES c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, phase, x
pipeVars == <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, phase, x>>

T(p) == p \in Tags

PipeInit ==
  /\ c = <<>> /\ part = <<>> /\ kept = <<>> /\ sure = 0 /\ reg = 0 /\ kf = <<>> /\ begun = {} /\ done = {}
  /\ rel = <<>> /\ shown = 0 /\ path = 0 /\ fin = "no" /\ phase = "none"
  /\ x = [trail |-> <<>>, loops |-> {}, fixes |-> <<>>, imu0 |-> -1]

SetOf(seq) == {seq[i] : i \in DOMAIN seq}
(* same points, in any order *)
Same(a, b) == Len(a) = Len(b) /\ SetOf(a) = SetOf(b)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

(* ---- scan delivery ----------------------------------------------------------- *)
Passes(p) == ~c.filter \/ (p[4] >= c.lo /\ p[4] <= c.hi)
Prepared(scan) == SelectSeq(Move(c.mount, scan[1]), Passes)
Merged(group) == [pts |-> Concat([i \in DOMAIN group |-> Prepared(group[i])]), t |-> group[1][2]]
Keep(m) == m.pts # <<>> /\ (kept = <<>> \/ m.t >= kept[Len(kept)].t)
(* with inertial input, scans count from its first sample on *)
Offered(t) == fin # "over" /\ (c.imu => x.imu0 >= 0 /\ t >= x.imu0)

Configure(cfg) == phase = "none" /\ phase' = "up" /\ c' = cfg
  /\ UNCHANGED <<part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, x>>

(* asked: a request to finish was already waiting for the work to be done *)
Insert(pts, t, asked) ==
  /\ phase = "up"
  /\ IF asked \/ ~Offered(t)
     THEN UNCHANGED <<part, kept>>
     ELSE LET group == Append(part, <<pts, t>>)
          IN IF Len(group) < c.acc
             THEN part' = group /\ UNCHANGED kept
             ELSE part' = <<>> /\ kept' = (IF Keep(Merged(group)) THEN Append(kept, Merged(group)) ELSE kept)
  /\ UNCHANGED <<c, sure, reg, kf, begun, done, rel, shown, path, fin, phase, x>>
Inserted ==
  /\ sure' = IF fin = "no" THEN Len(kept) ELSE sure
  /\ UNCHANGED <<c, part, kept, reg, kf, begun, done, rel, shown, path, fin, phase, x>>

FirstFrame == [pts |-> kept[1].pts, t |-> kept[1].t, pose |-> Ident]
IsKey(m) == Norm2(m) >= c.trange * c.trange \/ (c.arange > 0 /\ Turn(m) >= c.arange)

(* Without rotation, the prediction a registration starts from is the motion     *)
(* between the last two registered scans, carried on; in thousandths.            *)
Near(a, b) == a - b <= 2 /\ b - a <= 2
Predicted(trail, t, k) ==
  LET q == trail[Len(trail)]
      p == IF Len(trail) = 1 THEN q ELSE trail[1]
  IN IF Len(trail) = 1 THEN 1000 * q.pose[k]
     ELSE 1000 * q.pose[k] + (1000 * (q.pose[k] - p.pose[k]) * ((t - q.t) \div 100000)) \div ((q.t - p.t) \div 100000)
StartOk(trail, last, t, gs, gr) ==
  c.straight => gr /\ \A k \in 1..3 : Near(gs[k], Predicted(trail, t, k) - 1000 * last.pose[k])

(* registration of the next merged scan against the last key frame *)
Register(pts, t, tpts, res, gs, gr) ==
  /\ fin # "over"
  /\ T("P01") => Len(kept) >= (IF reg = 0 THEN 2 ELSE reg + 1)
  /\ Len(kept) >= 1
  /\ LET g == IF reg = 0 THEN 2 ELSE reg + 1
         frames == IF reg = 0 THEN <<FirstFrame>> ELSE kf
         last == frames[Len(frames)]
         trail == IF reg = 0 THEN <<[t |-> kept[1].t, pose |-> Ident]>> ELSE x.trail
         here == [t |-> t, pose |-> Compose(last.pose, res)]
     IN /\ T("P01") => Same(pts, kept[g].pts) /\ t = kept[g].t
        /\ T("P02") => Same(tpts, last.pts)
        /\ T("P17") => StartOk(trail, last, t, gs, gr)
        /\ x' = [x EXCEPT !.trail = <<trail[Len(trail)], here>>]
        /\ reg' = g
        /\ kf' = IF IsKey(res)
                 THEN Append(frames, [pts |-> pts, t |-> t, pose |-> Compose(last.pose, res)])
                 ELSE frames
  /\ UNCHANGED <<c, part, kept, sure, begun, done, rel, shown, path, fin, phase>>

(* ---- other sensors ---------------------------------------------------------------- *)
(* an inertial sample; late and repeated ones are harmless *)
Inertial(t) ==
  /\ x' = IF x.imu0 = -1 /\ fin # "over" THEN [x EXCEPT !.imu0 = t] ELSE x
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, phase>>
(* a position fix; nothing is recorded before the first valid one, nor what is not newer *)
PositionFix(t, p, ok) ==
  /\ x' = IF (x.fixes = <<>> /\ ~ok) \/ (x.fixes # <<>> /\ t <= x.fixes[Len(x.fixes)].t) \/ fin = "over" THEN x
          ELSE [x EXCEPT !.fixes = Append(@, [t |-> t, p |-> p, ok |-> ok])]
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, phase>>

(* ---- submaps ------------------------------------------------------------------- *)
Submaps(n) == n \div c.frames
NSub == Submaps(Len(kf))
Frame(s, i) == kf[s * c.frames + i]           \* s from 0, i from 1
Local(s, i) == Compose(Inverse(Frame(s, 1).pose), Frame(s, i).pose)
SubCloud(s) == Concat([i \in 1..c.frames |-> Move(Local(s, i), Frame(s, i).pts)])
(* the submap whose first frame holds the point with this id *)
WithPoint(id) == {s \in 0..(NSub - 1) : \E i \in DOMAIN Frame(s, 1).pts : Frame(s, 1).pts[i][1] = id}
Guess(s) == Compose(Inverse(Frame(s - 1, 1).pose), Frame(s, 1).pose)

MatchBegin(sp, st, tp, guess, res, score) ==
  /\ fin # "over" /\ sp # <<>> /\ tp # <<>>
  /\ \E s \in WithPoint(sp[1][1]) :
       /\ T("P04") => s >= 1 /\ s \notin begun
       /\ s >= 1
       /\ T("P04") => s - 1 \in WithPoint(tp[1][1])
       /\ T("P03") => Same(sp, SubCloud(s)) /\ st = Frame(s, 1).t /\ Same(tp, SubCloud(s - 1))
       /\ T("P04") => guess = Guess(s)
       /\ begun' = begun \cup {s}
       /\ rel' = [k \in DOMAIN rel \cup {s} |->
                    IF k = s THEN (IF score >= c.min THEN res ELSE guess) ELSE rel[k]]
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, done, shown, path, fin, phase, x>>
MatchEnd(id) ==
  /\ \E s \in WithPoint(id) : s \in begun /\ done' = done \cup {s}
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, rel, shown, path, fin, phase, x>>

RECURSIVE Chain(_)
Chain(s) == IF s = 0 THEN Frame(0, 1).pose ELSE Compose(Chain(s - 1), rel[s])

(* a later submap was registered to an earlier one to close a loop *)
LoopMatch(sp, tp, guess, ok) ==
  /\ fin # "over" /\ c.loops /\ sp # <<>> /\ tp # <<>>
  /\ \E s \in WithPoint(sp[1][1]) : \E k \in WithPoint(tp[1][1]) :
       /\ T("P16") => k < s - 1 /\ 1..s \subseteq done /\ <<k, s>> \notin x.loops
       /\ T("P16") \/ T("P03") => Same(sp, SubCloud(s)) /\ Same(tp, SubCloud(k))
       /\ T("P16") => guess = Compose(Inverse(Chain(k)), Chain(s))
       /\ x' = IF ok THEN [x EXCEPT !.loops = @ \cup {<<k, s>>}] ELSE x
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, phase>>
(* submaps joined to k by loops: a single registration closes none *)
LoopPartners(k) ==
  {s \in 0..(NSub - 1) : <<k, s>> \in x.loops /\ Cardinality({l \in x.loops : l[2] = s}) >= 2}

Show(pts, pose) ==
  /\ fin # "over"
  /\ shown' = shown + 1
  /\ T("P04") \/ T("P03") => shown + 1 < NSub
  /\ T("P04") => (1..(shown + 1) \subseteq done) /\ pose = Chain(shown + 1)
  /\ T("P03") => Same(pts, SubCloud(shown + 1))
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, path, fin, phase, x>>
ShowPath(poses) ==
  /\ fin # "over"
  /\ path' = Len(poses)
  /\ T("P04") =>
       /\ Len(poses) >= 2 /\ Len(poses) > path /\ Len(poses) <= NSub
       /\ c.cbs => Len(poses) = shown + 1
       /\ 1..(Len(poses) - 1) \subseteq done
       /\ \A k \in DOMAIN poses : poses[k] = Chain(k - 1)
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, fin, phase, x>>

(* the graph of the submaps joined so far *)
ShowGraph(vs, es) ==
  /\ fin # "over" /\ UNCHANGED pipeVars
  /\ T("P16") =>
       LET n == Len(vs)
           ids == {vs[i].id : i \in DOMAIN vs}
           pairs == {<<es[i].a, es[i].b>> : i \in DOMAIN es}
       IN /\ n >= 2 /\ n <= NSub /\ ids = 0..(n - 1) /\ 1..(n - 1) \subseteq done
          /\ c.cbs => n = shown + 1
          /\ \A i \in DOMAIN vs : vs[i].pose = Chain(vs[i].id)
          /\ pairs = {<<k, k + 1>> : k \in 0..(n - 2)} \cup UNION {{<<k, s>> : s \in LoopPartners(k) \cap ids} : k \in ids}
          /\ Len(es) = Cardinality(pairs)
          /\ \A i \in DOMAIN es : es[i].t = Compose(Inverse(Chain(es[i].a)), Chain(es[i].b))
(* some points of the joined submaps around the last one *)
ShowMap(pts) ==
  /\ fin # "over" /\ UNCHANGED pipeVars
  /\ T("P04") =>
       LET Near30(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) <= 900
           joined == {s \in 0..(NSub - 1) : 1..s \subseteq done /\ (c.cbs => s <= shown /\ Near30(Chain(s), Chain(shown)))}
       IN SetOf(pts) \subseteq UNION {SetOf(Move(Chain(s), SubCloud(s))) : s \in joined}

(* ---- finishing ------------------------------------------------------------------ *)
FinishCall ==
  /\ phase = "up"
  /\ fin' = IF fin = "no" THEN "yes" ELSE fin
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, phase, x>>
(* every scan inserted before was registered, every submap connected; a scan whose *)
(* insertion overlapped the request may have been refused                          *)
FinishReturn ==
  /\ fin # "no"
  /\ fin' = "over"
  /\ IF fin = "over" \/ reg > 0
     THEN UNCHANGED <<reg, kf>>
     \* at most the first merged scan, whose registration shows nothing
     ELSE \E g \in {0, 1} :
            /\ g <= Len(kept)
            /\ reg' = g
            /\ kf' = IF g = 1 THEN <<FirstFrame>> ELSE <<>>
  /\ T("P01") \/ T("P06") => reg' >= sure
  /\ LET n == Submaps(Len(kf'))
     IN /\ T("P04") \/ T("P06") => n <= 1 \/ (begun = 1..(n - 1) /\ done = begun)
        /\ T("P04") /\ c.cbs => shown = (IF n = 0 THEN 0 ELSE n - 1)
        /\ T("P04") /\ c.cbp => path = (IF n < 2 THEN 0 ELSE n)
  /\ UNCHANGED <<c, part, kept, sure, begun, done, rel, shown, path, phase, x>>

(* ---- results --------------------------------------------------------------------- *)
(* the place of a submap: between the fixes before and after its time *)
PlaceOf(t) ==
  LET f == x.fixes
      at == {i \in 1..(Len(f) - 1) : f[i].t < t /\ t < f[i + 1].t}
  IN IF at = {} THEN <<>>
     ELSE LET i == CHOOSE i \in at : TRUE
          IN IF f[i + 1].t - f[i].t > 200000 \/ ~f[i].ok \/ ~f[i + 1].ok THEN <<>>
             ELSE [k \in 1..3 |-> 1000 * f[i].p[k] + (1000 * (f[i + 1].p[k] - f[i].p[k]) * ((t - f[i].t) \div 1000))
                                                     \div ((f[i + 1].t - f[i].t) \div 1000)]
Places == SelectSeq([k \in 1..NSub |-> PlaceOf(Frame(k - 1, 1).t)], LAMBDA p : p # <<>>)
(* Fixes that agree with the motion leave the chain as it is; with enough of   *)
(* them the results are given in their frame.                                 *)
Anchored == c.anchor /\ Len(Places) > c.init
Final(s) == IF Anchored THEN Compose(c.coord, Chain(s)) ELSE Chain(s)
GlobalPose(s, i) == Compose(Final(s), Local(s, i))
PlacedSub(s) == Concat([i \in 1..c.frames |-> Move(GlobalPose(s, i), Frame(s, i).pts)])
PlacedSubs(a, b) == Concat([k \in 1..(b - a + 1) |-> PlacedSub(a + k - 1)])
Same_ == UNCHANGED pipeVars

IndexFile(ok, n, subs) ==
  /\ fin = "over" /\ Same_
  /\ Len(subs) = NSub
  /\ T("P05") \/ T("P06") => ok /\ n = 1
  /\ T("P05") \/ T("P04") \/ T("P16") =>
       \A k \in DOMAIN subs :
         /\ subs[k].id = k - 1 /\ subs[k].pose = Final(k - 1)
         \* consecutive submaps are connected, and those a loop was closed between
         /\ SetOf(subs[k].conn) = (IF k < NSub THEN {k} ELSE {}) \cup LoopPartners(k - 1)
  /\ T("P05") \/ T("P09") =>
       /\ c.disk => \A k \in DOMAIN subs :
            /\ subs[k].file # "" /\ Same(subs[k].pts, SubCloud(k - 1)) /\ subs[k].t = Frame(k - 1, 1).t
            /\ \A j \in DOMAIN subs : j # k => subs[j].file # subs[k].file
       /\ ~c.disk => \A k \in DOMAIN subs : subs[k].file = ""
PathRows == [k \in 1..(NSub * c.frames) |->
               GlobalPose((k - 1) \div c.frames, ((k - 1) % c.frames) + 1)]
PathText(ok, rows) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") \/ T("P02") \/ T("P06") =>
       /\ ok /\ Len(rows) = NSub * c.frames
       /\ \A k \in DOMAIN rows : rows[k].i = k - 1 /\ rows[k].pose = PathRows[k]
PathCloud(ok, err, pts) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") =>
       /\ NSub > 0 => ok /\ err = 0
       /\ Len(pts) = NSub * c.frames
       /\ \A k \in DOMAIN pts : pts[k] = <<k - 1, PathRows[k][1], PathRows[k][2], PathRows[k][3]>>
PoseText(ok, rows) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") => /\ ok = c.kitti
                 /\ c.kitti => Len(rows) = NSub /\ \A k \in DOMAIN rows : rows[k] = Final(k - 1)
AtPlace(p, q) == \A k \in 1..3 : p[k] - q[k] <= 3 /\ q[k] - p[k] <= 3
RECURSIVE Within(_, _)   \* the first sequence is part of the second, in order
Within(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                ELSE IF AtPlace(Head(a), Head(b)) THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))
(* fixes that arrive while scans are processed may come too late for a submap *)
PlaceCloud(pts) ==
  /\ fin = "over" /\ Same_
  /\ T("P08") => IF ~c.gps THEN pts = <<>>
                 ELSE Within(pts, Places) /\ (c.early => Len(pts) = Len(Places))
FixCloud(pts) ==
  /\ fin = "over" /\ Same_
  /\ T("P08") => IF ~c.gps THEN pts = <<>>
                 ELSE /\ Len(pts) <= Len(x.fixes) /\ (c.early => Len(pts) = Len(x.fixes))
                      /\ \A k \in DOMAIN pts :
                           /\ \A d \in 1..3 : Near(pts[k][d], 1000 * x.fixes[k].p[d])
                           /\ (pts[k][4] = 0) = x.fixes[k].ok
WholeMap(ok, err, pts) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") \/ T("P03") \/ T("P09") =>
       IF NSub = 0 THEN pts = <<>> ELSE ok /\ err = 0 /\ Same(pts, PlacedSubs(0, NSub - 1))
Parts == (NSub + c.step - 1) \div c.step
PartMap(k, ok, err, pts) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") \/ T("P03") \/ T("P09") =>
       /\ k < Parts /\ ok /\ err = 0
       /\ Same(pts, PlacedSubs(k * c.step, IF k = Parts - 1 THEN NSub - 1 ELSE (k + 1) * c.step - 1))
(* with evidence that outweighs all rays, the static map has every place *)
Spots(S) == {<<p[2], p[3], p[4]>> : p \in S}
StaticMap(ok, err, pts, a, b) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") \/ T("P13") =>
       LET all == SetOf(PlacedSubs(a, b))
       IN /\ ok /\ err = 0
          /\ SetOf(pts) \subseteq all /\ Spots(SetOf(pts)) = Spots(all)
StaticPart(k, ok, err, pts) ==
  /\ T("P05") => k < Parts
  /\ StaticMap(ok, err, pts, k * c.step, IF k = Parts - 1 THEN NSub - 1 ELSE (k + 1) * c.step - 1)
(* the package of the same map; lengths in 1/8 *)
InEighths(s) == [k \in DOMAIN s |-> <<s[k][1], 8 * s[k][2], 8 * s[k][3], 8 * s[k][4]>>]
Map == [k \in 1..NSub |-> [x |-> 8 * Final(k - 1)[1], y |-> 8 * Final(k - 1)[2], pts |-> InEighths(PlacedSub(k - 1))]]
PackageFile(ok, pieces) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") \/ T("P14") =>
       IF ~c.package \/ NSub = 0 THEN pieces = <<>> /\ ~ok
       ELSE LET want == PK!Package(Map, c.half, c.border)
                Abs(p, q) == <<q[1], q[2] + p.x, q[3] + p.y, q[4]>>
                mine == {i \in DOMAIN pieces : pieces[i].pts # <<>>}
            IN /\ ok /\ \A i \in DOMAIN pieces : pieces[i].ok
               /\ {<<pieces[i].x, pieces[i].y>> : i \in mine} = {<<p.x, p.y>> : p \in want}
               /\ \A i \in mine : \A p \in want :
                    (p.x = pieces[i].x /\ p.y = pieces[i].y) =>
                       LET all == {Abs(p, q) : q \in p.pts}
                           got == SetOf(InEighths(pieces[i].pts))
                       IN got \subseteq all /\ Spots(got) = Spots(all)
FileCounts(parts, sparts, whole, smap) ==
  /\ fin = "over" /\ Same_
  /\ T("P05") =>
       /\ parts = (IF c.combined /\ c.separate THEN Parts ELSE 0)
       /\ whole = (IF c.combined /\ ~c.separate /\ NSub > 0 THEN 1 ELSE 0)
       /\ sparts = (IF c.mrvm /\ c.separate THEN Parts ELSE 0)
       /\ NSub > 0 => smap = (IF c.mrvm /\ ~c.separate THEN 1 ELSE 0)

Delete == fin = "over" /\ phase = "up" /\ phase' = "del"
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, x>>
Deleted(live) == phase = "del" /\ phase' = "gone" /\ (T("P06") => live = 1)
  /\ UNCHANGED <<c, part, kept, sure, reg, kf, begun, done, rel, shown, path, fin, x>>

(* ---- invariants --------------------------------------------------------------------- *)
RegisteredOnce == reg <= Len(kept)
PairsExist == phase # "none" => begun \subseteq 1..(NSub - 1) /\ done \subseteq begun
=============================================================================
