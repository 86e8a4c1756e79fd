------------------------------ MODULE Starter ------------------------------
(* The two starter specifications as documented (docstring of             *)
(* iso8583.specs).  Written once by tools/mkstarter.py; descriptions are    *)
(* left out.  Keys: -3 header, -2 message type, -1 primary bitmap.          *)
EXTENDS Integers, TLC

Row(de, le, lt, ml) == [de |-> de, le |-> le, lt |-> lt, ml |-> ml,
                        nib |-> FALSE, lp |-> <<>>, rp |-> <<>>]

Starter_default ==
  (-3 :> Row("ascii", "ascii", 0, 0)) @@
  (-2 :> Row("ascii", "ascii", 0, 4)) @@
  (-1 :> Row("b", "ascii", 0, 8)) @@
  (1 :> Row("b", "ascii", 0, 8)) @@
  (2 :> Row("ascii", "ascii", 2, 19)) @@
  (3 :> Row("ascii", "ascii", 0, 6)) @@
  (4 :> Row("ascii", "ascii", 0, 12)) @@
  (5 :> Row("ascii", "ascii", 0, 12)) @@
  (6 :> Row("ascii", "ascii", 0, 12)) @@
  (7 :> Row("ascii", "ascii", 0, 10)) @@
  (8 :> Row("ascii", "ascii", 0, 8)) @@
  (9 :> Row("ascii", "ascii", 0, 8)) @@
  (10 :> Row("ascii", "ascii", 0, 8)) @@
  (11 :> Row("ascii", "ascii", 0, 6)) @@
  (12 :> Row("ascii", "ascii", 0, 6)) @@
  (13 :> Row("ascii", "ascii", 0, 4)) @@
  (14 :> Row("ascii", "ascii", 0, 4)) @@
  (15 :> Row("ascii", "ascii", 0, 4)) @@
  (16 :> Row("ascii", "ascii", 0, 4)) @@
  (17 :> Row("ascii", "ascii", 0, 4)) @@
  (18 :> Row("ascii", "ascii", 0, 4)) @@
  (19 :> Row("ascii", "ascii", 0, 3)) @@
  (20 :> Row("ascii", "ascii", 0, 3)) @@
  (21 :> Row("ascii", "ascii", 0, 3)) @@
  (22 :> Row("ascii", "ascii", 0, 3)) @@
  (23 :> Row("ascii", "ascii", 0, 3)) @@
  (24 :> Row("ascii", "ascii", 0, 3)) @@
  (25 :> Row("ascii", "ascii", 0, 2)) @@
  (26 :> Row("ascii", "ascii", 0, 2)) @@
  (27 :> Row("ascii", "ascii", 0, 1)) @@
  (28 :> Row("ascii", "ascii", 0, 9)) @@
  (29 :> Row("ascii", "ascii", 0, 9)) @@
  (30 :> Row("ascii", "ascii", 0, 9)) @@
  (31 :> Row("ascii", "ascii", 0, 9)) @@
  (32 :> Row("ascii", "ascii", 2, 11)) @@
  (33 :> Row("ascii", "ascii", 2, 11)) @@
  (34 :> Row("ascii", "ascii", 2, 28)) @@
  (35 :> Row("ascii", "ascii", 2, 37)) @@
  (36 :> Row("ascii", "ascii", 3, 104)) @@
  (37 :> Row("ascii", "ascii", 0, 12)) @@
  (38 :> Row("ascii", "ascii", 0, 6)) @@
  (39 :> Row("ascii", "ascii", 0, 2)) @@
  (40 :> Row("ascii", "ascii", 0, 3)) @@
  (41 :> Row("ascii", "ascii", 0, 8)) @@
  (42 :> Row("ascii", "ascii", 0, 15)) @@
  (43 :> Row("ascii", "ascii", 0, 40)) @@
  (44 :> Row("ascii", "ascii", 2, 25)) @@
  (45 :> Row("ascii", "ascii", 2, 76)) @@
  (46 :> Row("ascii", "ascii", 3, 999)) @@
  (47 :> Row("ascii", "ascii", 3, 999)) @@
  (48 :> Row("ascii", "ascii", 3, 999)) @@
  (49 :> Row("ascii", "ascii", 0, 3)) @@
  (50 :> Row("ascii", "ascii", 0, 3)) @@
  (51 :> Row("ascii", "ascii", 0, 3)) @@
  (52 :> Row("b", "ascii", 0, 8)) @@
  (53 :> Row("ascii", "ascii", 0, 16)) @@
  (54 :> Row("ascii", "ascii", 3, 240)) @@
  (55 :> Row("b", "ascii", 3, 255)) @@
  (56 :> Row("ascii", "ascii", 3, 999)) @@
  (57 :> Row("ascii", "ascii", 3, 999)) @@
  (58 :> Row("ascii", "ascii", 3, 999)) @@
  (59 :> Row("ascii", "ascii", 3, 999)) @@
  (60 :> Row("ascii", "ascii", 3, 999)) @@
  (61 :> Row("ascii", "ascii", 3, 999)) @@
  (62 :> Row("ascii", "ascii", 3, 999)) @@
  (63 :> Row("ascii", "ascii", 3, 999)) @@
  (64 :> Row("b", "ascii", 0, 8)) @@
  (65 :> Row("b", "ascii", 0, 8)) @@
  (66 :> Row("ascii", "ascii", 0, 1)) @@
  (67 :> Row("ascii", "ascii", 0, 2)) @@
  (68 :> Row("ascii", "ascii", 0, 3)) @@
  (69 :> Row("ascii", "ascii", 0, 3)) @@
  (70 :> Row("ascii", "ascii", 0, 3)) @@
  (71 :> Row("ascii", "ascii", 0, 4)) @@
  (72 :> Row("ascii", "ascii", 0, 4)) @@
  (73 :> Row("ascii", "ascii", 0, 6)) @@
  (74 :> Row("ascii", "ascii", 0, 10)) @@
  (75 :> Row("ascii", "ascii", 0, 10)) @@
  (76 :> Row("ascii", "ascii", 0, 10)) @@
  (77 :> Row("ascii", "ascii", 0, 10)) @@
  (78 :> Row("ascii", "ascii", 0, 10)) @@
  (79 :> Row("ascii", "ascii", 0, 10)) @@
  (80 :> Row("ascii", "ascii", 0, 10)) @@
  (81 :> Row("ascii", "ascii", 0, 10)) @@
  (82 :> Row("ascii", "ascii", 0, 12)) @@
  (83 :> Row("ascii", "ascii", 0, 12)) @@
  (84 :> Row("ascii", "ascii", 0, 12)) @@
  (85 :> Row("ascii", "ascii", 0, 12)) @@
  (86 :> Row("ascii", "ascii", 0, 16)) @@
  (87 :> Row("ascii", "ascii", 0, 16)) @@
  (88 :> Row("ascii", "ascii", 0, 16)) @@
  (89 :> Row("ascii", "ascii", 0, 16)) @@
  (90 :> Row("ascii", "ascii", 0, 42)) @@
  (91 :> Row("ascii", "ascii", 0, 1)) @@
  (92 :> Row("ascii", "ascii", 0, 2)) @@
  (93 :> Row("ascii", "ascii", 0, 5)) @@
  (94 :> Row("ascii", "ascii", 0, 7)) @@
  (95 :> Row("ascii", "ascii", 0, 42)) @@
  (96 :> Row("b", "ascii", 0, 8)) @@
  (97 :> Row("ascii", "ascii", 0, 17)) @@
  (98 :> Row("ascii", "ascii", 0, 25)) @@
  (99 :> Row("ascii", "ascii", 2, 11)) @@
  (100 :> Row("ascii", "ascii", 2, 11)) @@
  (101 :> Row("ascii", "ascii", 2, 17)) @@
  (102 :> Row("ascii", "ascii", 2, 28)) @@
  (103 :> Row("ascii", "ascii", 2, 28)) @@
  (104 :> Row("ascii", "ascii", 3, 100)) @@
  (105 :> Row("ascii", "ascii", 3, 999)) @@
  (106 :> Row("ascii", "ascii", 3, 999)) @@
  (107 :> Row("ascii", "ascii", 3, 999)) @@
  (108 :> Row("ascii", "ascii", 3, 999)) @@
  (109 :> Row("ascii", "ascii", 3, 999)) @@
  (110 :> Row("ascii", "ascii", 3, 999)) @@
  (111 :> Row("ascii", "ascii", 3, 999)) @@
  (112 :> Row("ascii", "ascii", 3, 999)) @@
  (113 :> Row("ascii", "ascii", 3, 999)) @@
  (114 :> Row("ascii", "ascii", 3, 999)) @@
  (115 :> Row("ascii", "ascii", 3, 999)) @@
  (116 :> Row("ascii", "ascii", 3, 999)) @@
  (117 :> Row("ascii", "ascii", 3, 999)) @@
  (118 :> Row("ascii", "ascii", 3, 999)) @@
  (119 :> Row("ascii", "ascii", 3, 999)) @@
  (120 :> Row("ascii", "ascii", 3, 999)) @@
  (121 :> Row("ascii", "ascii", 3, 999)) @@
  (122 :> Row("ascii", "ascii", 3, 999)) @@
  (123 :> Row("ascii", "ascii", 3, 999)) @@
  (124 :> Row("ascii", "ascii", 3, 999)) @@
  (125 :> Row("ascii", "ascii", 3, 999)) @@
  (126 :> Row("ascii", "ascii", 3, 999)) @@
  (127 :> Row("ascii", "ascii", 3, 999)) @@
  (128 :> Row("b", "ascii", 0, 8))

Starter_default_ascii ==
  (-3 :> Row("ascii", "ascii", 0, 0)) @@
  (-2 :> Row("ascii", "ascii", 0, 4)) @@
  (-1 :> Row("ascii", "ascii", 0, 16)) @@
  (1 :> Row("ascii", "ascii", 0, 16)) @@
  (2 :> Row("ascii", "ascii", 2, 19)) @@
  (3 :> Row("ascii", "ascii", 0, 6)) @@
  (4 :> Row("ascii", "ascii", 0, 12)) @@
  (5 :> Row("ascii", "ascii", 0, 12)) @@
  (6 :> Row("ascii", "ascii", 0, 12)) @@
  (7 :> Row("ascii", "ascii", 0, 10)) @@
  (8 :> Row("ascii", "ascii", 0, 8)) @@
  (9 :> Row("ascii", "ascii", 0, 8)) @@
  (10 :> Row("ascii", "ascii", 0, 8)) @@
  (11 :> Row("ascii", "ascii", 0, 6)) @@
  (12 :> Row("ascii", "ascii", 0, 6)) @@
  (13 :> Row("ascii", "ascii", 0, 4)) @@
  (14 :> Row("ascii", "ascii", 0, 4)) @@
  (15 :> Row("ascii", "ascii", 0, 4)) @@
  (16 :> Row("ascii", "ascii", 0, 4)) @@
  (17 :> Row("ascii", "ascii", 0, 4)) @@
  (18 :> Row("ascii", "ascii", 0, 4)) @@
  (19 :> Row("ascii", "ascii", 0, 3)) @@
  (20 :> Row("ascii", "ascii", 0, 3)) @@
  (21 :> Row("ascii", "ascii", 0, 3)) @@
  (22 :> Row("ascii", "ascii", 0, 3)) @@
  (23 :> Row("ascii", "ascii", 0, 3)) @@
  (24 :> Row("ascii", "ascii", 0, 3)) @@
  (25 :> Row("ascii", "ascii", 0, 2)) @@
  (26 :> Row("ascii", "ascii", 0, 2)) @@
  (27 :> Row("ascii", "ascii", 0, 1)) @@
  (28 :> Row("ascii", "ascii", 0, 9)) @@
  (29 :> Row("ascii", "ascii", 0, 9)) @@
  (30 :> Row("ascii", "ascii", 0, 9)) @@
  (31 :> Row("ascii", "ascii", 0, 9)) @@
  (32 :> Row("ascii", "ascii", 2, 11)) @@
  (33 :> Row("ascii", "ascii", 2, 11)) @@
  (34 :> Row("ascii", "ascii", 2, 28)) @@
  (35 :> Row("ascii", "ascii", 2, 37)) @@
  (36 :> Row("ascii", "ascii", 3, 104)) @@
  (37 :> Row("ascii", "ascii", 0, 12)) @@
  (38 :> Row("ascii", "ascii", 0, 6)) @@
  (39 :> Row("ascii", "ascii", 0, 2)) @@
  (40 :> Row("ascii", "ascii", 0, 3)) @@
  (41 :> Row("ascii", "ascii", 0, 8)) @@
  (42 :> Row("ascii", "ascii", 0, 15)) @@
  (43 :> Row("ascii", "ascii", 0, 40)) @@
  (44 :> Row("ascii", "ascii", 2, 25)) @@
  (45 :> Row("ascii", "ascii", 2, 76)) @@
  (46 :> Row("ascii", "ascii", 3, 999)) @@
  (47 :> Row("ascii", "ascii", 3, 999)) @@
  (48 :> Row("ascii", "ascii", 3, 999)) @@
  (49 :> Row("ascii", "ascii", 0, 3)) @@
  (50 :> Row("ascii", "ascii", 0, 3)) @@
  (51 :> Row("ascii", "ascii", 0, 3)) @@
  (52 :> Row("ascii", "ascii", 0, 16)) @@
  (53 :> Row("ascii", "ascii", 0, 16)) @@
  (54 :> Row("ascii", "ascii", 3, 240)) @@
  (55 :> Row("ascii", "ascii", 3, 510)) @@
  (56 :> Row("ascii", "ascii", 3, 999)) @@
  (57 :> Row("ascii", "ascii", 3, 999)) @@
  (58 :> Row("ascii", "ascii", 3, 999)) @@
  (59 :> Row("ascii", "ascii", 3, 999)) @@
  (60 :> Row("ascii", "ascii", 3, 999)) @@
  (61 :> Row("ascii", "ascii", 3, 999)) @@
  (62 :> Row("ascii", "ascii", 3, 999)) @@
  (63 :> Row("ascii", "ascii", 3, 999)) @@
  (64 :> Row("ascii", "ascii", 0, 16)) @@
  (65 :> Row("ascii", "ascii", 0, 16)) @@
  (66 :> Row("ascii", "ascii", 0, 1)) @@
  (67 :> Row("ascii", "ascii", 0, 2)) @@
  (68 :> Row("ascii", "ascii", 0, 3)) @@
  (69 :> Row("ascii", "ascii", 0, 3)) @@
  (70 :> Row("ascii", "ascii", 0, 3)) @@
  (71 :> Row("ascii", "ascii", 0, 4)) @@
  (72 :> Row("ascii", "ascii", 0, 4)) @@
  (73 :> Row("ascii", "ascii", 0, 6)) @@
  (74 :> Row("ascii", "ascii", 0, 10)) @@
  (75 :> Row("ascii", "ascii", 0, 10)) @@
  (76 :> Row("ascii", "ascii", 0, 10)) @@
  (77 :> Row("ascii", "ascii", 0, 10)) @@
  (78 :> Row("ascii", "ascii", 0, 10)) @@
  (79 :> Row("ascii", "ascii", 0, 10)) @@
  (80 :> Row("ascii", "ascii", 0, 10)) @@
  (81 :> Row("ascii", "ascii", 0, 10)) @@
  (82 :> Row("ascii", "ascii", 0, 12)) @@
  (83 :> Row("ascii", "ascii", 0, 12)) @@
  (84 :> Row("ascii", "ascii", 0, 12)) @@
  (85 :> Row("ascii", "ascii", 0, 12)) @@
  (86 :> Row("ascii", "ascii", 0, 16)) @@
  (87 :> Row("ascii", "ascii", 0, 16)) @@
  (88 :> Row("ascii", "ascii", 0, 16)) @@
  (89 :> Row("ascii", "ascii", 0, 16)) @@
  (90 :> Row("ascii", "ascii", 0, 42)) @@
  (91 :> Row("ascii", "ascii", 0, 1)) @@
  (92 :> Row("ascii", "ascii", 0, 2)) @@
  (93 :> Row("ascii", "ascii", 0, 5)) @@
  (94 :> Row("ascii", "ascii", 0, 7)) @@
  (95 :> Row("ascii", "ascii", 0, 42)) @@
  (96 :> Row("ascii", "ascii", 0, 16)) @@
  (97 :> Row("ascii", "ascii", 0, 17)) @@
  (98 :> Row("ascii", "ascii", 0, 25)) @@
  (99 :> Row("ascii", "ascii", 2, 11)) @@
  (100 :> Row("ascii", "ascii", 2, 11)) @@
  (101 :> Row("ascii", "ascii", 2, 17)) @@
  (102 :> Row("ascii", "ascii", 2, 28)) @@
  (103 :> Row("ascii", "ascii", 2, 28)) @@
  (104 :> Row("ascii", "ascii", 3, 100)) @@
  (105 :> Row("ascii", "ascii", 3, 999)) @@
  (106 :> Row("ascii", "ascii", 3, 999)) @@
  (107 :> Row("ascii", "ascii", 3, 999)) @@
  (108 :> Row("ascii", "ascii", 3, 999)) @@
  (109 :> Row("ascii", "ascii", 3, 999)) @@
  (110 :> Row("ascii", "ascii", 3, 999)) @@
  (111 :> Row("ascii", "ascii", 3, 999)) @@
  (112 :> Row("ascii", "ascii", 3, 999)) @@
  (113 :> Row("ascii", "ascii", 3, 999)) @@
  (114 :> Row("ascii", "ascii", 3, 999)) @@
  (115 :> Row("ascii", "ascii", 3, 999)) @@
  (116 :> Row("ascii", "ascii", 3, 999)) @@
  (117 :> Row("ascii", "ascii", 3, 999)) @@
  (118 :> Row("ascii", "ascii", 3, 999)) @@
  (119 :> Row("ascii", "ascii", 3, 999)) @@
  (120 :> Row("ascii", "ascii", 3, 999)) @@
  (121 :> Row("ascii", "ascii", 3, 999)) @@
  (122 :> Row("ascii", "ascii", 3, 999)) @@
  (123 :> Row("ascii", "ascii", 3, 999)) @@
  (124 :> Row("ascii", "ascii", 3, 999)) @@
  (125 :> Row("ascii", "ascii", 3, 999)) @@
  (126 :> Row("ascii", "ascii", 3, 999)) @@
  (127 :> Row("ascii", "ascii", 3, 999)) @@
  (128 :> Row("ascii", "ascii", 0, 16))

Starter(name) == IF name = "default" THEN Starter_default ELSE Starter_default_ascii
=============================================================================
