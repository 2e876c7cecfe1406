SPECIFICATION Spec
CONSTANTS Al = 1 NSec = 3 VSs = {0,1,3} RSs = {0,1,2,4} Ptrs = {2,4,5} Sohs = {2} Top = 16
INVARIANT Unique RvaBack OffBack ByOffset RawInside Beh
