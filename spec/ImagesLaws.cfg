CONSTANTS MaxN = 4
 MaxPad = 5
SPECIFICATION Spec
INVARIANTS MirrorTwice PadKeeps PadShows PadMirrors PadContinuous RecenterBack InterpGood
