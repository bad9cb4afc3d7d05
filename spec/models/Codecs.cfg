CONSTANTS Formats = {"compact", "leb", "scale", "wicc", "rlp", "xrplen", "ont", "der"}
 Fine = 40
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS RoundTrip Canonical Noticed
