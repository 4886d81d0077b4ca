SPECIFICATION Spec
CONSTANTS MaxParts = 1
 Names <- FullNames
 FNames <- FullFNames
 Contents <- FullContents
 Bounds <- FullBounds
 Quoted = {TRUE, FALSE}
INVARIANTS RoundTrip NoneTruncated TypeRead FormSaysSo FilesMatter Emit
CHECK_DEADLOCK FALSE
