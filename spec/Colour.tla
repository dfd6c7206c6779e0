------------------------------- MODULE Colour --------------------------------
(***************************************************************************)
(* Colours.  A colour is a triple of channels 0..255.  An input is         *)
(* [k |-> "hex", rgb] (channels), [k |-> "name", name],                    *)
(* [k |-> "rgb", rgb] (fractions of one, transparency ignored) or          *)
(* [k |-> "bad"].                                                          *)
(***************************************************************************)
EXTENDS Exact, TLC

\* the middle shade of every palette, aliases, and the ends of the greys
Palette == [
  rose |-> <<244, 63, 94>>,
  pink |-> <<236, 72, 153>>,
  fuchsia |-> <<217, 70, 239>>,
  purple |-> <<168, 85, 247>>,
  violet |-> <<139, 92, 246>>,
  indigo |-> <<99, 102, 241>>,
  blue |-> <<59, 130, 246>>,
  sky |-> <<14, 165, 233>>,
  cyan |-> <<6, 182, 212>>,
  teal |-> <<20, 184, 166>>,
  emerald |-> <<16, 185, 129>>,
  green |-> <<34, 197, 94>>,
  lime |-> <<132, 204, 22>>,
  yellow |-> <<234, 179, 8>>,
  amber |-> <<245, 158, 11>>,
  orange |-> <<249, 115, 22>>,
  red |-> <<239, 68, 68>>,
  warmGray |-> <<120, 113, 108>>,
  trueGray |-> <<115, 115, 115>>,
  gray |-> <<113, 113, 122>>,
  coolGray |-> <<107, 114, 128>>,
  blueGray |-> <<100, 116, 139>>,
  b |-> <<59, 130, 246>>,
  r |-> <<239, 68, 68>>,
  g |-> <<34, 197, 94>>,
  m |-> <<244, 63, 94>>,
  c |-> <<6, 182, 212>>,
  o |-> <<249, 115, 22>>,
  y |-> <<234, 179, 8>>,
  a |-> <<245, 158, 11>>,
  p |-> <<168, 85, 247>>,
  e |-> <<113, 113, 122>>,
  lg |-> <<132, 204, 22>>,
  lb |-> <<14, 165, 233>>,
  k |-> <<24, 24, 27>>,
  black |-> <<24, 24, 27>>,
  f |-> <<244, 244, 245>>,
  white |-> <<244, 244, 245>>]

Channels == 1..3
Valid(c) == DOMAIN c = Channels /\ \A i \in Channels : c[i] \in 0..255
Known(x) == CASE x.k = "hex" -> TRUE
              [] x.k = "name" -> x.name \in DOMAIN Palette
              [] x.k = "rgb" -> \A i \in Channels : QLe("0", x.rgb[i]) /\ QLe(x.rgb[i], "1")
              [] OTHER -> FALSE
\* c is (within rounding) what a fraction v of each channel gives
Off(v, c) == QAbs(QSub(v, c))
Denotes(x, c) == CASE x.k = "hex" -> \A i \in Channels : c[i] = x.rgb[i]
                   [] x.k = "name" -> c = Palette[x.name]
                   [] OTHER -> \A i \in Channels : QLe(Off(QMul(x.rgb[i], 255), c[i]), "1/2")
Clamp(v) == QMax("0", QMin("255", v))
\* scaling, to a whole channel value; a negative factor changes nothing
Scaled(c, f, z) == IF QLt(f, "0") THEN z = c
                   ELSE \A i \in Channels : QLt(Off(Clamp(QMul(c[i], f)), z[i]), "1")
\* the least and most a channel may become
ScaleDown(c, f) == IF QLt(f, "0") THEN c ELSE [i \in Channels |-> QInt(QFloor(Clamp(QMul(c[i], f))))]
=============================================================================
