SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 3
  Kinds = {"call", "compile", "fresh", "here"}
  Hows = {"path", "abs", "rel", "relpath", "sh"}
  Cwds = {"work", "bin", "package", "root"}
  Argss = {"pipe", "file", "full", "odd", "bad", "live", "term"}
  Tools = {"ok", "none", "fails", "unlinks"}
  Shuts = {0, 1}
  Kills = {0, 1}
  Ns = {1, 2, 3}
