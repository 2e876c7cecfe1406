SPECIFICATION Spec
CONSTANTS Depth = 4 Trs <- TrsA Names <- NamesA Vals <- ValsA Pairs <- PairsA Damage = {}
INVARIANT Sorted Agrees Answers RoundTrip Block Total Beh
PROPERTY SetGet Trans
VIEW View
CHECK_DEADLOCK FALSE
