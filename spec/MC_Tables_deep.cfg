SPECIFICATION Spec
CONSTANTS Depth = 5 Kinds = {"str","msg"} Sids = {0,1,15,16,65535} Texts <- TextsA Mids <- MidsA MTexts <- MTextsA Sizes = {40,52,108} Bits = {4} Comps = {0,3,6,1} Useds = {0} Damage = {}
INVARIANT Strings Messages Bitmap Cut Total Beh
VIEW View
CHECK_DEADLOCK FALSE
