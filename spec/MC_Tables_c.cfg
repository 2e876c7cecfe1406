SPECIFICATION Spec
CONSTANTS Depth = 1 Kinds = {"bmp"} Sids = {1} Texts <- TextsA Mids <- MidsA MTexts <- MTextsA Sizes = {40,52,108} Bits = {0,1,2,4,8,16,24,32} Comps = {0,3,6,1} Useds = {0,1,3,20} Damage = {}
INVARIANT Strings Messages Bitmap Cut Total Beh
VIEW View
CHECK_DEADLOCK FALSE
