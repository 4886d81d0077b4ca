SPECIFICATION Spec
CONSTANTS MaxParts = 2
 Names <- SomeNames
 FNames <- SomeFNames
 Contents <- SomeContents
 Bounds <- SomeBounds
 Quoted = {TRUE}
INVARIANTS RoundTrip NoneTruncated TypeRead FormSaysSo FilesMatter Emit
CHECK_DEADLOCK FALSE
