------------------------------ MODULE JOutput --------------------------------
(* in: op, c, tex, serif, fam, names (as above), dpi, size ["tuple", w, h]  *)
(* or [word];  out: ok, rc, others (other settings changed), files [name,   *)
(* full], and for a draw: texts (families used), textex, same, size, grown, *)
(* pages [name, dpi, w, h, tw, th, diff].                                   *)
EXTENDS Output, Exact, Clause, TraceRun
Start(tr) == [Fresh(NoRc, 2) EXCEPT !.files = {}]
Op(e) == [e.in EXCEPT !.names = Range(e.in.names)]
Step(s, e) == After(s, Op(e))
In(x, lo, hi) == QLe(lo, x) /\ QLe(x, hi)
Clauses(s, e) ==
  LET n == TLCEval(Step(s, e))  o == e.out  i == e.in
      draws == o.ok /\ i.op = "draw"
      tuple == draws /\ i.size[1] = "tuple"
      pg == o.pages
  IN <<Ob("accepted", o.ok),
       Ob("exactly-the-files-asked-for", {o.files[k].name : k \in DOMAIN o.files} = n.files),
       Ob("no-file-is-empty", \A k \in DOMAIN o.files : o.files[k].full),
       Cl("files-hold-what-was-asked", o.ok /\ i.op \in {"draw", "table"}, \A k \in DOMAIN o.files : o.files[k].name \in Range(i.names) => o.files[k].right),
       Ob("text-settings-follow", o.rc = n.rc),
       Ob("other-settings-untouched", o.others = <<>>),
       Cl("text-drawn-as-configured", draws, \A k \in DOMAIN o.texts : o.texts[k] = n.rc.fam),
       Cl("text-rendered-as-configured", draws, Range(o.textex) \subseteq {n.rc.tex}),
       Cl("saving-leaves-the-figure-alone", draws /\ i.names # <<>>, o.same),
       Cl("returned-figure-has-the-size-asked-for", tuple, QEq(o.size[1], i.size[2]) /\ QEq(o.size[2], i.size[3])),
       Cl("scaled-size", draws /\ i.size[1] = "scale", \A k \in 1..2 :
            LET d == QSub(o.size[k], o.plain[k])  f == QSub(i.size[2], "1") IN (QLt("0", d) <=> QLt("0", f)) /\ (QLt(d, "0") <=> QLt(f, "0"))),
       Cl("resolution", draws, \A k \in DOMAIN pg : pg[k].dpi # "-" => QNear(pg[k].dpi, i.dpi, "0", "1/2")),
       Cl("whole-figure-saved", draws, \A k \in DOMAIN pg :
            /\ In(pg[k].w, QSub(QMul("49/50", pg[k].tw), "1/25"), QAdd(pg[k].tw, "2/5"))
            /\ In(pg[k].h, QSub(QMul("49/50", pg[k].th), "1/25"), QAdd(pg[k].th, "2/5"))),
       Cl("picture-is-the-figure", draws, \A k \in DOMAIN pg : pg[k].diff # "-" => QLe(pg[k].diff, "1/100"))>>
=============================================================================
