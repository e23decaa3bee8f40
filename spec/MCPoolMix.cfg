CONSTANTS
 Width = 2
 Total = 2
 Sets = {"set", "head", "next", "die", "late"}
 KindSet = {"u", "ux", "none"}
 Cfgs <- SecondCfg
 Reset = {"w", "code", "env", "ps", "full", "nxt", "parsed"}
SPECIFICATION Spec
INVARIANTS Exclusive AsAlone FormIsOwn NoScriptLeft Emit
CHECK_DEADLOCK FALSE
