SPECIFICATION Spec
CONSTANTS Depth = 3 Kinds = {"str","msg"} Sids = {3,65520} Texts <- TextsB Mids <- MidsB MTexts <- MTextsB Sizes = {40,52,108} Bits = {4} Comps = {0,3,6,1} Useds = {0} Damage = {}
INVARIANT Strings Messages Bitmap Cut Total Beh
VIEW View
CHECK_DEADLOCK FALSE
