SPECIFICATION Spec
CONSTANTS Mode = "gin" Deep = 2
INVARIANTS GinAgree GinName GinLazy GinInner GinArray GinNever GinDur GinSeparate Emit
CHECK_DEADLOCK FALSE
