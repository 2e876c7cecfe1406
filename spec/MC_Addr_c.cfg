SPECIFICATION Spec
CONSTANTS Al = 4 NSec = 2 VSs = {0,1,3,4,5,8} RSs = {0,1,3,4,5,8,9} Ptrs = {0,4,5,8,12,16} Sohs = {0,3,4} Top = 40
INVARIANT Unique RvaBack OffBack ByOffset RawInside Beh
