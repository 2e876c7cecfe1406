SPECIFICATION Spec
CONSTANTS Depth = 2 Kinds = {"str","msg","bmp"} Sids = {2,4} Texts <- TextsB Mids <- MidsC MTexts <- MTextsB Sizes = {40,52,108} Bits = {1,24} Comps = {0,3,6,1} Useds = {0,1} Damage = {1,255}
INVARIANT Strings Messages Bitmap Cut Total Beh
VIEW View
CHECK_DEADLOCK FALSE
