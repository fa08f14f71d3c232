SPECIFICATION Spec
CONSTANTS Clients = {1, 2} Listeners = {"a", "b"} MaxFd = 2 Ctxs = {0, 1}
INVARIANTS FreedOnce CountIsUses FreedWhenUnused ListedIsOpen NobodyLostEarly AfterFree CtxAllowed CtxCounted
PROPERTIES EndsFreed Obeys
CHECK_DEADLOCK FALSE
