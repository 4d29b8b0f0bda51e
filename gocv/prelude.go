package main

// prelude: theory of slices headers and byte strings. Str is the sort of finite byte sequences
// (Go strings and contents of byte arrays); all axioms are true of the standard model.
const prelude = `(declare-datatypes ((Slice 0)) (((mk_slice (s_base Int) (s_off Int) (s_len Int) (s_cap Int)))))
(declare-fun at (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (at o i) (+ o i)) :pattern ((at o i)))))
(declare-sort Str 0)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun permwit ((Array Int Int) (Array Int Int)) Bool)
(declare-fun str_empty () Str)
(declare-fun mkstr ((Array Int Int) Int Int) Str)
(declare-fun arrof (Str) (Array Int Int))
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun supd (Str Int Int) Str)
(declare-fun str1 (Int) Str)
(declare-fun seq_eq (Str Str) Bool)
(declare-fun sdiff (Str Str) Int)
(declare-fun str_lt (Str Str) Bool)
(declare-fun rune_w (Str Int) Int)
(declare-fun rune_at (Str Int) Int)
(assert (forall ((s Str)) (! (<= 0 (slen s)) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (= (slen str_empty) 0))
(assert (forall ((s Str)) (! (=> (= (slen s) 0) (= s str_empty)) :pattern ((slen s)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (= (slen (mkstr a o n)) (ite (<= 0 n) n 0)) :pattern ((mkstr a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (sat (mkstr a o n) i) (select a (+ o i)))) :pattern ((sat (mkstr a o n) i)))))
(assert (forall ((s Str) (i Int)) (! (= (select (arrof s) i) (sat s i)) :pattern ((select (arrof s) i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((s Str)) (! (= (ssub s 0 (slen s)) s) :pattern ((ssub s 0 (slen s))))))
(assert (forall ((s Str) (i Int) (b Int)) (! (= (slen (supd s i b)) (slen s)) :pattern ((supd s i b)))))
(assert (forall ((s Str) (i Int) (b Int) (j Int)) (! (=> (and (<= 0 j) (< j (slen s)) (<= 0 b) (<= b 255)) (= (sat (supd s i b) j) (ite (= i j) b (sat s j)))) :pattern ((sat (supd s i b) j)))))
(assert (forall ((b Int)) (! (and (= (slen (str1 b)) 1) (=> (and (<= 0 b) (<= b 255)) (= (sat (str1 b) 0) b))) :pattern ((str1 b)))))
(assert (forall ((a Str) (b Str)) (! (=> (seq_eq a b) (= a b)) :pattern ((seq_eq a b)))))
(assert (forall ((a Str) (b Str)) (! (or (seq_eq a b) (not (= (slen a) (slen b))) (and (<= 0 (sdiff a b)) (< (sdiff a b) (slen a)) (not (= (sat a (sdiff a b)) (sat b (sdiff a b)))))) :pattern ((seq_eq a b)))))
(assert (forall ((a Str)) (! (not (str_lt a a)) :pattern ((str_lt a a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (str_lt a b) (str_lt b c)) (str_lt a c)) :pattern ((str_lt a b) (str_lt b c)))))
(assert (forall ((a Str) (b Str)) (! (=> (not (= a b)) (or (str_lt a b) (str_lt b a))) :pattern ((str_lt a b)))))
(assert (forall ((a Str) (b Str)) (! (=> (str_lt a b) (not (str_lt b a))) :pattern ((str_lt a b)))))
(declare-fun sha256 (Str) Str)
(assert (forall ((s Str)) (! (= (slen (sha256 s)) 32) :pattern ((sha256 s)))))
`
