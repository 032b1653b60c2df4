// generated by gen_families.py
family!("pn1", PointN<f64, 1>; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y 8 y 9 y 17 n 64 n 65 y 66 y 128 n 129 y 256 n 257 y]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (10 9 0 []) (12 11 0 []) (18 17 0 []) (32 31 0 []) (62 61 0 []) (129 128 0 []) (256 255 0 []) (259 258 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (12 10 1 [10]) (14 12 1 [12]) (20 18 1 [18]) (34 32 1 [32]) (64 62 1 [62]) (131 129 1 [129]) (258 256 1 [256]) (261 259 1 [259]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (14 11 2 [12]) (16 13 2 [14]) (22 19 2 [20]) (36 33 2 [34]) (66 63 2 [64]) (133 130 2 [131]) (260 257 2 [258]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (16 12 3 [14]) (18 14 3 [16]) (24 20 3 [22]) (68 64 3 [66]) (262 258 3 [260]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10]) (20 15 4 [18]) (12 6 5 [10]) (13 7 5 [11]) (22 16 5 [20]) (14 7 6 [12]) (15 8 6 [13]) (16 8 7 [14]) (17 9 7 [15]) (18 9 8 [16]) (19 10 8 [17]) (20 10 9 [18]) (22 11 10 [20]) (24 12 11 [22]) (26 13 12 [24])]);
family!("pn2", PointN<f64, 2>; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y 8 y 9 y 10 y 11 y 12 y 13 y 16 n 17 y 18 y 32 n 33 y]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (5 4 0 []) (6 5 0 []) (7 6 0 []) (8 7 0 []) (10 9 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (7 5 1 [5]) (8 6 1 [6]) (9 7 1 [7]) (10 8 1 [8]) (12 10 1 [10]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (9 6 2 [7]) (10 7 2 [8]) (11 8 2 [9]) (12 9 2 [10]) (14 11 2 [12]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (11 7 3 [9]) (12 8 3 [10]) (13 9 3 [11]) (14 10 3 [12]) (16 12 3 [14]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10]) (13 8 4 [11]) (14 9 4 [12]) (15 10 4 [13]) (16 11 4 [14]) (12 6 5 [10]) (13 7 5 [11]) (14 8 5 [12]) (15 9 5 [13]) (16 10 5 [14]) (17 11 5 [15]) (18 12 5 [16])]);
family!("pn3", PointN<f64, 3>; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y 8 y 9 y]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (5 4 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (7 5 1 [5]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (9 6 2 [7]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (11 7 3 [9]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10]) (13 8 4 [11])]);
family!("pn4", PointN<f64, 4>; bez [1 n 2 y 3 y 4 y 5 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5]) (8 4 3 [6]) (9 5 3 [7])]);
family!("pn5", PointN<f64, 5>; bez [1 n 2 y 3 y 4 y 5 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5]) (8 4 3 [6]) (9 5 3 [7])]);
family!("pn6", PointN<f64, 6>; bez [1 n 2 y 3 y 4 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5])]);
family!("pn8", PointN<f64, 8>; bez [1 n 2 y 3 y 4 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5])]);
family!("pn12", PointN<f64, 12>; bez [1 n 2 y 3 y 4 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5])]);
family!("u6", U6; bez [1 n 2 y 3 y 4 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5])]);
family!("ps2", PointN<S, 2>; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10])]);
family!("u2", U2; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y 8 y 9 y 17 n]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (10 9 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (12 10 1 [10]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (14 11 2 [12]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (16 12 3 [14]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10])]);
family!("u3", U3; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10])]);
family!("a3", A3; bez [1 n 2 y 3 y 4 y]; spl [(2 1 0 []) (3 2 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 3 2 [4]) (7 4 2 [5]) (8 4 3 [6]) (9 5 3 [7])]);
family!("v2", V2; bez [1 n 2 y 3 y 4 y 5 y 6 y 7 y]; spl [(2 1 0 []) (3 2 0 []) (4 3 0 []) (4 2 1 [2]) (5 3 1 [3]) (6 4 1 [4]) (6 3 2 [4]) (7 4 2 [5]) (8 5 2 [6]) (8 4 3 [6]) (9 5 3 [7]) (10 6 3 [8]) (10 5 4 [8]) (11 6 4 [9]) (12 7 4 [10])]);
