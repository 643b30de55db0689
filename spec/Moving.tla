------------------------------- MODULE Moving -------------------------------
(* Padding, shifting and reversing data sets (C09)                            *)
EXTENDS DataSets

Pad(d, len, value) ==
    LET F(c, f, i) == IF i <= d.len THEN d.ch[c][f][i] ELSE value
    IN [d EXCEPT !.len = len, !.ch = Build(d.nc, d.nf, len, F)]

ShiftModes == {"OFFSET", "CROP", "PAD", "CYCLE"}

\* shift is <<>> for None or <<n>>
Shift(d, shift, mode) ==
    IF shift = <<>> THEN [d EXCEPT !.off = 0]
    ELSE LET n == shift[1]
             Old(c, f, i) == IF 1 <= i /\ i <= d.len THEN d.ch[c][f][i] ELSE Zero
             Crop(c, f, i) == Old(c, f, i - n)
             Padded(c, f, i) == Old(c, f, i - MaxOf(n, 0))
             Cycle(c, f, i) == d.ch[c][f][1 + ((i - 1 - n) % d.len)]
         IN CASE mode = "OFFSET" -> [d EXCEPT !.off = d.off + n]
              [] mode = "CROP" -> [d EXCEPT !.ch = Build(d.nc, d.nf, d.len, Crop)]
              [] mode = "PAD" -> [d EXCEPT !.len = d.len + Abs(n), !.ch = Build(d.nc, d.nf, d.len + Abs(n), Padded)]
              [] mode = "CYCLE" -> [d EXCEPT !.ch = Build(d.nc, d.nf, d.len, Cycle)]

\* mirrors the samples at the point in time zero (with the last sample of a signal at offset 0 becoming the first one at offset len - 1)
Reverse(d) ==
    LET F(c, f, i) == d.ch[c][f][d.len + 1 - i]
    IN [d EXCEPT !.off = d.len - d.off - 1, !.ch = Build(d.nc, d.nf, d.len, F)]
=============================================================================
