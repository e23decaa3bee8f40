CONSTANTS
 Width = 1
 Total = 3
 Sets = {"set", "head", "next", "die", "plain"}
 KindSet = {"u", "s", "none"}
 Cfgs <- SecondCfg
 Reset = {"w", "code", "env", "ps", "full", "nxt", "parsed"}
SPECIFICATION Spec
INVARIANTS Exclusive AsAlone FormIsOwn NoScriptLeft Emit
CHECK_DEADLOCK FALSE
