// Reference models: loop-shaped equivalents of library routines whose real
// bodies are specialised raw-pointer code.  They are never executed; the MIR
// exporter substitutes their MIR for the library routine so that the abstract
// interpreter sees an ordinary loop around `next`.
#![allow(dead_code)]
#![feature(try_trait_v2)]
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::hash::Hash;

pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn count<I: Iterator>(it: I) -> usize {
    let mut it = it;
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, f: F) -> B {
    let mut it = it;
    let mut f = f;
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) {
    let mut it = it;
    let mut f = f;
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn last<I: Iterator>(it: I) -> Option<I::Item> {
    let mut it = it;
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: std::ops::Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: std::ops::Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: std::ops::Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        f(x)?;
    }
    R::from_output(())
}
pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(it: I, init: B, mut f: F) -> B {
    let mut it = it;
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = 0;
    while k < n {
        it.next_back()?;
        k += 1;
    }
    it.next_back()
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    loop {
        let x = it.next()?;
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
}
pub fn max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(it: I, f: F) -> Option<I::Item> {
    let mut it = it;
    let mut f = f;
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if f(&r, &x) != std::cmp::Ordering::Greater {
            r = x;
        }
    }
    Some(r)
}

pub trait Collect<T> {
    fn from_it<I: Iterator<Item = T>>(it: I) -> Self;
}
impl<T> Collect<T> for Vec<T> {
    fn from_it<I: Iterator<Item = T>>(it: I) -> Self {
        let mut it = it;
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
}
impl<T> Collect<T> for VecDeque<T> {
    fn from_it<I: Iterator<Item = T>>(it: I) -> Self {
        let mut it = it;
        let mut v = VecDeque::new();
        while let Some(x) = it.next() {
            v.push_back(x);
        }
        v
    }
}
impl Collect<char> for String {
    fn from_it<I: Iterator<Item = char>>(it: I) -> Self {
        let mut it = it;
        let mut v = String::new();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
}
impl<'a> Collect<&'a str> for String {
    fn from_it<I: Iterator<Item = &'a str>>(it: I) -> Self {
        let mut it = it;
        let mut v = String::new();
        while let Some(x) = it.next() {
            v.push_str(x);
        }
        v
    }
}
impl<'a> Collect<&'a char> for String {
    fn from_it<I: Iterator<Item = &'a char>>(it: I) -> Self {
        let mut it = it;
        let mut v = String::new();
        while let Some(x) = it.next() {
            v.push(*x);
        }
        v
    }
}
impl Collect<String> for String {
    fn from_it<I: Iterator<Item = String>>(it: I) -> Self {
        let mut it = it;
        let mut v = String::new();
        while let Some(x) = it.next() {
            v.push_str(&x);
        }
        v
    }
}
impl<K: Eq + Hash, V> Collect<(K, V)> for HashMap<K, V> {
    fn from_it<I: Iterator<Item = (K, V)>>(it: I) -> Self {
        let mut it = it;
        let mut v = HashMap::new();
        while let Some((k, x)) = it.next() {
            v.insert(k, x);
        }
        v
    }
}
impl<K: Ord, V> Collect<(K, V)> for BTreeMap<K, V> {
    fn from_it<I: Iterator<Item = (K, V)>>(it: I) -> Self {
        let mut it = it;
        let mut v = BTreeMap::new();
        while let Some((k, x)) = it.next() {
            v.insert(k, x);
        }
        v
    }
}
impl<K: Eq + Hash> Collect<K> for HashSet<K> {
    fn from_it<I: Iterator<Item = K>>(it: I) -> Self {
        let mut it = it;
        let mut v = HashSet::new();
        while let Some(k) = it.next() {
            v.insert(k);
        }
        v
    }
}
impl<K: Ord> Collect<K> for BTreeSet<K> {
    fn from_it<I: Iterator<Item = K>>(it: I) -> Self {
        let mut it = it;
        let mut v = BTreeSet::new();
        while let Some(k) = it.next() {
            v.insert(k);
        }
        v
    }
}
struct OptIt<'a, I> {
    it: I,
    bad: &'a mut bool,
}
impl<'a, T, I: Iterator<Item = Option<T>>> Iterator for OptIt<'a, I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if *self.bad {
            return None;
        }
        match self.it.next() {
            None => None,
            Some(Some(x)) => Some(x),
            Some(None) => {
                *self.bad = true;
                None
            }
        }
    }
}
impl<T, C: Collect<T>> Collect<Option<T>> for Option<C> {
    fn from_it<I: Iterator<Item = Option<T>>>(it: I) -> Self {
        let mut bad = false;
        let c = C::from_it(OptIt { it, bad: &mut bad });
        if bad {
            None
        } else {
            Some(c)
        }
    }
}
struct ResIt<'a, I, E> {
    it: I,
    bad: &'a mut Option<E>,
}
impl<'a, T, E, I: Iterator<Item = Result<T, E>>> Iterator for ResIt<'a, I, E> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.bad.is_some() {
            return None;
        }
        match self.it.next() {
            None => None,
            Some(Ok(x)) => Some(x),
            Some(Err(e)) => {
                *self.bad = Some(e);
                None
            }
        }
    }
}
impl<T, E, C: Collect<T>> Collect<Result<T, E>> for Result<C, E> {
    fn from_it<I: Iterator<Item = Result<T, E>>>(it: I) -> Self {
        let mut bad = None;
        let c = C::from_it(ResIt { it, bad: &mut bad });
        match bad {
            Some(e) => Err(e),
            None => Ok(c),
        }
    }
}
impl Collect<()> for () {
    fn from_it<I: Iterator<Item = ()>>(it: I) -> Self {
        let mut it = it;
        while let Some(()) = it.next() {}
    }
}
pub fn collect<I: Iterator, B: Collect<I::Item>>(it: I) -> B {
    B::from_it(it)
}
pub fn from_iter<B, T, I: IntoIterator<Item = T>>(it: I) -> B
where
    B: Collect<T>,
{
    B::from_it(it.into_iter())
}

pub trait ExtendM<T> {
    fn extend_it<I: Iterator<Item = T>>(&mut self, it: I);
}
impl<T> ExtendM<T> for Vec<T> {
    fn extend_it<I: Iterator<Item = T>>(&mut self, it: I) {
        let mut it = it;
        while let Some(x) = it.next() {
            self.push(x);
        }
    }
}
impl<'a, T: Copy> ExtendM<&'a T> for Vec<T> {
    fn extend_it<I: Iterator<Item = &'a T>>(&mut self, it: I) {
        let mut it = it;
        while let Some(x) = it.next() {
            self.push(*x);
        }
    }
}
impl ExtendM<char> for String {
    fn extend_it<I: Iterator<Item = char>>(&mut self, it: I) {
        let mut it = it;
        while let Some(x) = it.next() {
            self.push(x);
        }
    }
}
impl<'a> ExtendM<&'a str> for String {
    fn extend_it<I: Iterator<Item = &'a str>>(&mut self, it: I) {
        let mut it = it;
        while let Some(x) = it.next() {
            self.push_str(x);
        }
    }
}
impl ExtendM<String> for String {
    fn extend_it<I: Iterator<Item = String>>(&mut self, it: I) {
        let mut it = it;
        while let Some(x) = it.next() {
            self.push_str(&x);
        }
    }
}
impl<K: Eq + Hash, V> ExtendM<(K, V)> for HashMap<K, V> {
    fn extend_it<I: Iterator<Item = (K, V)>>(&mut self, it: I) {
        let mut it = it;
        while let Some((k, v)) = it.next() {
            self.insert(k, v);
        }
    }
}
// Extend::extend has generic args [Self, A, T: IntoIterator<Item = A>]
pub fn extend<B, A, T: IntoIterator<Item = A>>(b: &mut B, it: T)
where
    B: ExtendM<A>,
{
    b.extend_it(it.into_iter())
}
// Vec::<T, A>::extend_from_slice: [T, A]
pub fn extend_from_slice<T: Clone, A>(b: &mut Vec<T>, it: &[T]) {
    for x in it.iter() {
        b.push(x.clone());
    }
}

pub struct MZip<A, B> {
    a: A,
    b: B,
}
pub fn zip<A: Iterator, U: IntoIterator>(a: A, u: U) -> MZip<A, U::IntoIter> {
    MZip { a, b: u.into_iter() }
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut MZip<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s.iter() {
        if *y == *x {
            return true;
        }
    }
    false
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

// ---- slices and vectors
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    let n = s.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && f(&s[j]).cmp(&f(&s[j - 1])) == std::cmp::Ordering::Less {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn binary_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> {
    let mut i = 0;
    while i < s.len() {
        match s[i].cmp(x) {
            std::cmp::Ordering::Less => i += 1,
            std::cmp::Ordering::Equal => return Ok(i),
            std::cmp::Ordering::Greater => return Err(i),
        }
    }
    Err(i)
}
pub fn partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut p: P) -> usize {
    let mut i = 0;
    while i < s.len() && p(&s[i]) {
        i += 1;
    }
    i
}
pub fn fill<T: Clone>(s: &mut [T], x: T) {
    let mut i = 0;
    while i < s.len() {
        s[i] = x.clone();
        i += 1;
    }
}
pub fn split_at<T>(s: &[T], m: usize) -> (&[T], &[T]) {
    (&s[..m], &s[m..])
}
pub fn split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.len() == 0 {
        return None;
    }
    Some((&s[0], &s[1..]))
}
pub fn split_last<T>(s: &[T]) -> Option<(&T, &[T])> {
    let n = s.len();
    if n == 0 {
        return None;
    }
    Some((&s[n - 1], &s[..n - 1]))
}
pub fn is_sorted<T: PartialOrd>(s: &[T]) -> bool {
    let mut i = 1;
    while i < s.len() {
        if !(s[i - 1] <= s[i]) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn slice_split<'a, T, F: FnMut(&T) -> bool>(s: &'a [T], mut f: F) -> std::vec::IntoIter<&'a [T]> {
    let mut out: Vec<&'a [T]> = Vec::new();
    let mut b = 0;
    let mut i = 0;
    while i < s.len() {
        if f(&s[i]) {
            out.push(&s[b..i]);
            b = i + 1;
        }
        i += 1;
    }
    out.push(&s[b..]);
    out.into_iter()
}
pub fn dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        if f(&mut v[i]) == f(&mut v[i - 1]) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut x = v.remove(i);
        if !f(&mut x, &mut v[i - 1]) {
            v.insert(i, x);
            i += 1;
        }
    }
}
pub fn resize_with<T, A, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    v.truncate(n);
    while v.len() < n {
        v.push(f());
    }
}
pub fn retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&mut v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn iter_rposition<I: DoubleEndedIterator + ExactSizeIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if p(x) {
            return Some(i);
        }
    }
    None
}
pub fn iter_min_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = it.next()?;
    let mut k = f(&best);
    while let Some(x) = it.next() {
        let q = f(&x);
        if q.cmp(&k) == std::cmp::Ordering::Less {
            best = x;
            k = q;
        }
    }
    Some(best)
}
pub fn iter_max_by_key<I: Iterator, B: Ord, F: FnMut(&I::Item) -> B>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = it.next()?;
    let mut k = f(&best);
    while let Some(x) = it.next() {
        let q = f(&x);
        if q.cmp(&k) != std::cmp::Ordering::Less {
            best = x;
            k = q;
        }
    }
    Some(best)
}
pub fn iter_unzip<I: Iterator<Item = (A, B)>, A, B, FA: Default + ExtendM<A>, FB: Default + ExtendM<B>>(it: I) -> (FA, FB) {
    let mut a = FA::default();
    let mut b = FB::default();
    for (x, y) in it {
        a.extend_it(std::iter::once(x));
        b.extend_it(std::iter::once(y));
    }
    (a, b)
}
pub fn iter_eq<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    let mut b = b.into_iter();
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                if x != y {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
pub fn iter_ne<I: Iterator, J: IntoIterator>(a: I, b: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    !iter_eq(a, b)
}

// ---- heaps (represented as an unordered vector)
pub fn heap_pop<T: Ord, A>(v: &mut Vec<T>) -> Option<T> {
    let n = v.len();
    if n == 0 {
        return None;
    }
    let mut b = 0;
    let mut i = 1;
    while i < n {
        if v[i].cmp(&v[b]) == std::cmp::Ordering::Greater {
            b = i;
        }
        i += 1;
    }
    Some(v.remove(b))
}
pub fn heap_peek<T: Ord, A>(v: &Vec<T>) -> Option<&T> {
    let n = v.len();
    if n == 0 {
        return None;
    }
    let mut b = 0;
    let mut i = 1;
    while i < n {
        if v[i].cmp(&v[b]) == std::cmp::Ordering::Greater {
            b = i;
        }
        i += 1;
    }
    Some(&v[b])
}

// ---- sets
pub fn is_subset<T: Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> bool {
    for x in a.iter() {
        if !b.contains(x) {
            return false;
        }
    }
    true
}
pub fn is_superset<T: Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> bool {
    is_subset(b, a)
}
pub fn is_disjoint<T: Eq + Hash>(a: &HashSet<T>, b: &HashSet<T>) -> bool {
    for x in a.iter() {
        if b.contains(x) {
            return false;
        }
    }
    true
}
pub fn set_difference<'a, T: Eq + Hash>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> std::vec::IntoIter<&'a T> {
    let mut out = Vec::new();
    for x in a.iter() {
        if !b.contains(x) {
            out.push(x);
        }
    }
    out.into_iter()
}
pub fn set_intersection<'a, T: Eq + Hash>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> std::vec::IntoIter<&'a T> {
    let mut out = Vec::new();
    for x in a.iter() {
        if b.contains(x) {
            out.push(x);
        }
    }
    out.into_iter()
}
pub fn set_union<'a, T: Eq + Hash>(a: &'a HashSet<T>, b: &'a HashSet<T>) -> std::vec::IntoIter<&'a T> {
    let mut out = Vec::new();
    for x in a.iter() {
        out.push(x);
    }
    for x in b.iter() {
        if !a.contains(x) {
            out.push(x);
        }
    }
    out.into_iter()
}

// ---- numbers
pub fn f64_clamp(x: f64, lo: f64, hi: f64) -> f64 {
    if !(lo <= hi) {
        panic!();
    }
    if x < lo {
        lo
    } else if x > hi {
        hi
    } else {
        x
    }
}
pub fn f64_mul_add(x: f64, a: f64, b: f64) -> f64 {
    x * a + b
}
pub fn f64_recip(x: f64) -> f64 {
    1.0 / x
}
pub fn usize_pow(x: usize, n: u32) -> usize {
    let mut r = 1;
    let mut i = 0;
    while i < n {
        r *= x;
        i += 1;
    }
    r
}
pub fn usize_div_ceil(a: usize, b: usize) -> usize {
    if a % b == 0 {
        a / b
    } else {
        a / b + 1
    }
}
pub fn usize_rem_euclid(a: usize, b: usize) -> usize {
    a % b
}
pub fn usize_div_euclid(a: usize, b: usize) -> usize {
    a / b
}
pub fn usize_is_multiple_of(a: usize, b: usize) -> bool {
    if b == 0 {
        a == 0
    } else {
        a % b == 0
    }
}
pub fn usize_abs_diff(a: usize, b: usize) -> usize {
    if a < b {
        b - a
    } else {
        a - b
    }
}
pub fn i32_abs(a: i32) -> i32 {
    if a < 0 {
        -a
    } else {
        a
    }
}
pub fn i32_signum(a: i32) -> i32 {
    if a < 0 {
        -1
    } else if a > 0 {
        1
    } else {
        0
    }
}
pub fn to_digit(c: char, radix: u32) -> Option<u32> {
    let v = match c {
        '0'..='9' => c as u32 - 48,
        'a'..='z' => c as u32 - 87,
        'A'..='Z' => c as u32 - 55,
        _ => return None,
    };
    if v < radix {
        Some(v)
    } else {
        None
    }
}
pub fn from_digit(d: u32, radix: u32) -> Option<char> {
    if d >= radix {
        return None;
    }
    Some(if d < 10 { (48 + d as u8) as char } else { (87 + d as u8) as char })
}
pub fn ascii_upper(c: &char) -> char {
    match *c {
        'a'..='z' => (*c as u8 - 32) as char,
        x => x,
    }
}
pub fn ascii_lower(c: &char) -> char {
    match *c {
        'A'..='Z' => (*c as u8 + 32) as char,
        x => x,
    }
}
impl<T> ExtendM<T> for VecDeque<T> {
    fn extend_it<I: Iterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.push_back(x);
        }
    }
}
impl<K: Eq + Hash> ExtendM<K> for HashSet<K> {
    fn extend_it<I: Iterator<Item = K>>(&mut self, it: I) {
        for x in it {
            self.insert(x);
        }
    }
}
impl<K: Ord> ExtendM<K> for BTreeSet<K> {
    fn extend_it<I: Iterator<Item = K>>(&mut self, it: I) {
        for x in it {
            self.insert(x);
        }
    }
}
impl<K: Ord, V> ExtendM<(K, V)> for BTreeMap<K, V> {
    fn extend_it<I: Iterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
