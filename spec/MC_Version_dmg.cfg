SPECIFICATION Spec
CONSTANTS Depth = 2 Trs <- TrsC Names <- NamesB Vals <- ValsC Pairs <- PairsB Damage = {1,255}
INVARIANT Sorted Agrees Answers RoundTrip Block Total Beh
PROPERTY SetGet Trans
VIEW View
CHECK_DEADLOCK FALSE
