CONSTANTS
 Width = 1
 Total = 4
 Sets = {"set", "head", "next", "die", "late"}
 KindSet = {"u", "s", "none", "old"}
 Cfgs <- SecondCfg
 Reset = {"w", "code", "env", "ps", "full", "nxt", "parsed"}
SPECIFICATION Spec
INVARIANTS Exclusive AsAlone FormIsOwn NoScriptLeft Emit
CHECK_DEADLOCK FALSE
