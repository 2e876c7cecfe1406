SPECIFICATION Spec
CONSTANTS Depth = 5 Trs <- TrsB Names <- NamesB Vals <- ValsB Pairs <- PairsB Damage = {}
INVARIANT Sorted Agrees Answers RoundTrip Block Total Beh
PROPERTY SetGet Trans
VIEW View
CHECK_DEADLOCK FALSE
