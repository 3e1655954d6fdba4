SPECIFICATION Spec
CONSTANTS
 Calls = {1, 2, 3}
 MaxPort = 2
 Vals = {1, 2}
 Falsy = {1}
 Defects = {}
INVARIANTS OwnReply Answered LostWithPort NoneLeft
PROPERTIES Once GoodPort NoNeedless
CHECK_DEADLOCK FALSE
