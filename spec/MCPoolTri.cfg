CONSTANTS
 Width = 3
 Total = 3
 Sets = {"head", "die", "plain"}
 KindSet = {"u", "none"}
 Cfgs <- OneCfg
 Reset = {"w", "code", "env", "ps", "full", "nxt", "parsed"}
SPECIFICATION Spec
INVARIANTS Exclusive AsAlone FormIsOwn NoScriptLeft Emit
CHECK_DEADLOCK FALSE
