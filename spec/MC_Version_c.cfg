SPECIFICATION Spec
CONSTANTS Depth = 6 Trs <- TrsC Names <- NamesB Vals <- ValsA Pairs <- PairsA Damage = {}
INVARIANT Sorted Agrees Answers RoundTrip Block Total Beh
PROPERTY SetGet Trans
VIEW View
CHECK_DEADLOCK FALSE
