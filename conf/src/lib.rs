//! Conformance of the analysis' library models: each function returns true when run (cargo test), and must evaluate to the
//! constant true under the abstract interpreter (tools/conf.py).
#![allow(clippy::all, unused)]
use itertools::{Either, Itertools};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

macro_rules! conf { ($($n:ident $b:block)*) => { $(pub fn $n() -> bool $b)*
    #[cfg(test)] mod t { $(#[test] fn $n() { assert!(super::$n()); })* } } }

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct W(pub u32);

conf! {
repeat_with_zip { let mut n = 0; let v: Vec<(i32, char)> = std::iter::repeat_with(|| { n += 1; n }).zip("abc".chars()).collect(); v == vec![(1, 'a'), (2, 'b'), (3, 'c')] }
repeat_with_take { let mut n = 5; let v: Vec<i32> = std::iter::repeat_with(move || { n += 1; n }).take(3).collect(); v == [6, 7, 8] }
from_fn_state { let mut c = 0; let v: Vec<u32> = std::iter::from_fn(move || { c += 1; if c < 4 { Some(c) } else { None } }).collect(); v == [1, 2, 3] }
once_with { std::iter::once_with(|| 3).chain([4]).collect_vec() == [3, 4] }
scan_sum { let v: Vec<i32> = [1, 2, 3].iter().scan(0, |acc, x| { *acc += x; Some(*acc) }).collect(); v == [1, 3, 6] }
scan_stop { let v: Vec<i32> = [1, 2, 3].iter().scan(0, |acc, x| { *acc += x; if *acc > 3 { None } else { Some(*acc) } }).collect(); v == [1, 3] }
map_state { let mut last = 0; let v: Vec<i32> = [3, 5, 9].into_iter().map(move |x| { let d = x - last; last = x; d }).collect(); v == [3, 2, 4] }
filter_state { let mut seen = HashSet::new(); let v: Vec<i32> = [3, 5, 3].into_iter().filter(move |x| seen.insert(*x)).collect(); v == [3, 5] }
fuse_cycle { let v: Vec<i32> = [1, 2].iter().copied().cycle().take(5).fuse().collect(); v == [1, 2, 1, 2, 1] }
step_by { (0..10).filter(|x| x % 2 == 0).step_by(2).collect_vec() == [0, 4, 8] }
rposition { [1, 2, 1, 3].iter().rposition(|x| *x == 1) == Some(2) }
rfind { [1, 2, 1, 3].iter().rfind(|x| **x < 3) == Some(&1) }
rfold { [1, 2, 3].iter().rfold(0, |a, x| a * 10 + x) == 321 }
iter_eq { [1, 2].iter().eq([1, 2].iter()) && [1, 2].iter().ne([1, 3].iter()) && [1, 2].iter().lt([1, 3].iter()) }
is_sorted { [1, 2, 2].is_sorted() && ![2, 1].iter().is_sorted() && [(1, 9), (2, 3)].iter().is_sorted_by_key(|p| p.0) }
next_if { let mut it = [1, 2, 3].into_iter().peekable(); let a = it.next_if(|x| *x == 1); let b = it.next_if_eq(&7); let c = it.next(); a == Some(1) && b.is_none() && c == Some(2) }
tuple_windows3 { [1, 2, 3, 4].iter().tuple_windows().map(|(a, b, c)| a + b + c).collect_vec() == [6, 9] }
tuple_windows2 { [1, 2, 4].iter().tuple_windows().all(|(a, b)| a < b) }
tuples { [1, 2, 3, 4, 5].into_iter().tuples().map(|(a, b)| a * b).collect_vec() == [2, 12] }
tuple_comb { [1, 2, 3].into_iter().tuple_combinations().map(|(a, b)| a * 10 + b).collect_vec() == [12, 13, 23] }
combos { [1, 2, 3].into_iter().combinations(2).collect_vec() == vec![vec![1, 2], vec![1, 3], vec![2, 3]] }
cart { [1, 2].into_iter().cartesian_product([7, 8]).collect_vec() == vec![(1, 7), (1, 8), (2, 7), (2, 8)] }
interleave { [1, 2, 3].into_iter().interleave([9]).collect_vec() == [1, 9, 2, 3] }
merge { [1, 4].into_iter().merge([2, 5]).collect_vec() == [1, 2, 4, 5] }
intersperse { Itertools::intersperse([1, 2, 3].into_iter(), 0).collect_vec() == [1, 0, 2, 0, 3] }
contains { [1, 2, 3].into_iter().contains(&2) && !(0..3).contains(&7) }
positions { [1, 2, 3, 4].iter().positions(|x| x % 2 == 0).collect_vec() == [1, 3] }
find_position { [1, 2, 3].iter().find_position(|x| **x == 3) == Some((2, &3)) }
unique_by { [1, 12, 3, 14].into_iter().unique_by(|x| x % 10).collect_vec() == [1, 12, 3, 14] && [1, 11, 3].into_iter().unique_by(|x| x % 10).collect_vec() == [1, 3] }
dedup { [1, 1, 2, 1].into_iter().dedup().collect_vec() == [1, 2, 1] && [1, 3, 2].into_iter().dedup_by(|a, b| a % 2 == b % 2).collect_vec() == [1, 2] }
counts { let c = ["a", "b", "a"].into_iter().counts(); c["a"] == 2 && c["b"] == 1 && [1, 2, 3].into_iter().counts_by(|x| x % 2)[&1] == 2 }
chunk_by { let mut out = vec![]; for (k, g) in &[1, 3, 2, 5].into_iter().chunk_by(|x| x % 2) { out.push((k, g.collect_vec())); } out == vec![(1, vec![1, 3]), (0, vec![2]), (1, vec![5])] }
chunks { let mut out = vec![]; for g in &(0..5).chunks(2) { out.push(g.sum::<i32>()); } out == [1, 5, 4] }
map_ok { let v: Result<Vec<i32>, ()> = [Ok(1), Ok(2)].into_iter().map_ok(|x| x + 1).collect(); v == Ok(vec![2, 3]) }
filter_ok { let v: Result<Vec<i32>, ()> = [Ok(1), Ok(2)].into_iter().filter_ok(|x| *x > 1).collect(); v == Ok(vec![2]) }
fold_ok { [Ok::<i32, ()>(1), Ok(2)].into_iter().fold_ok(0, |a, b| a + b) == Ok(3) && [Ok(1), Err("x")].into_iter().fold_ok(0, |a, b| a + b) == Err("x") }
partition_result { let (a, b): (Vec<i32>, Vec<&str>) = [Ok(1), Err("x"), Ok(2)].into_iter().partition_result(); a == [1, 2] && b == ["x"] }
partition_map { let (a, b): (Vec<i32>, Vec<i32>) = [1, 2, 3].into_iter().partition_map(|x| if x > 1 { Either::Left(x) } else { Either::Right(x) }); a == [2, 3] && b == [1] }
all_equal { [1, 1].iter().all_equal() && ![1, 2].iter().all_equal() && [1, 2].iter().all_unique() }
dups { [1, 2, 1, 1].into_iter().duplicates().collect_vec() == [1] }
group_map { let m = [(1, 'a'), (2, 'b'), (1, 'c')].into_iter().into_group_map(); m[&1] == ['a', 'c'] && m.len() == 2 }
find_or_first { [1, 2].into_iter().find_or_first(|x| *x > 5) == Some(1) && [1, 2].into_iter().find_or_first(|x| *x == 2) == Some(2) }
with_position { use itertools::Position; [1, 2].into_iter().with_position().map(|(p, x)| if p == Position::Last { x * 10 } else { x }).collect_vec() == [1, 20] }
dropping { [1, 2, 3].into_iter().dropping(1).collect_vec() == [2, 3] }
try_fold_opt { [1u8, 2].iter().try_fold(0u8, |a, x| a.checked_add(*x)) == Some(3) && [200u8, 100].iter().try_fold(0u8, |a, x| a.checked_add(*x)).is_none() }
try_for_each_res { [1, 2].iter().try_for_each(|x| if *x > 1 { Err(*x) } else { Ok(()) }) == Err(2) }
opt_xor { Some(1).xor(None) == Some(1) && Some(1).xor(Some(2)).is_none() }
opt_take_if { let mut x = Some(3); let t = x.take_if(|v| *v == 3); t == Some(3) && x.is_none() }
opt_get_or_insert { let mut x: Option<i32> = None; *x.get_or_insert(4) += 1; x == Some(5) }
opt_unzip { Some((1, 'a')).unzip() == (Some(1), Some('a')) }
opt_zip_map_or { Some(1).zip(Some(2)).map_or(0, |(a, b)| a + b) == 3 }
res_and_or { let e: Result<i32, i32> = Err(1); e.or(Ok::<i32, ()>(2)) == Ok(2) && Ok::<i32, i32>(1).and(Ok::<i32, i32>(5)) == Ok(5) }
res_map_or { Ok::<i32, ()>(2).map_or(0, |x| x + 1) == 3 && Err::<i32, i32>(2).map_or_else(|e| e * 5, |x| x) == 10 }
res_inspect { let mut n = 0; let _ = Ok::<i32, ()>(2).inspect(|x| n = *x); n == 2 && Err::<(), i32>(4).is_err_and(|e| e == 4) }
vec_dedup_key { let mut v = vec![1, 11, 2, 12, 3]; v.dedup_by_key(|x| *x % 10); v == [1, 2, 3] }
vec_dedup_by { let mut v = vec![1, 2, 3, 10]; v.dedup_by(|a, b| *a == *b + 1); v == [1, 3, 10] }
vec_retain_mut { let mut v = vec![1, 2, 3]; v.retain_mut(|x| { *x += 1; *x % 2 == 0 }); v == [2, 4] }
vec_retain_state { let mut i = 0; let mut v = vec![5, 6, 7]; v.retain(|_| { i += 1; i != 2 }); v == [5, 7] }
vec_pop_if { let mut v = vec![1, 2]; let a = v.pop_if(|x| *x == 2); let b = v.pop_if(|x| *x == 9); a == Some(2) && b.is_none() && v == [1] }
vec_resize_with { let mut n = 0; let mut v = vec![]; v.resize_with(3, || { n += 1; n }); v == [1, 2, 3] }
vec_within { let mut v = vec![1, 2, 3]; v.extend_from_within(1..); v == [1, 2, 3, 2, 3] }
deque { let mut d: VecDeque<i32> = (0..4).collect(); d.rotate_left(1); let r = d.remove(1); d.push_front(9); d.truncate(3); r == Some(2) && d == [9, 1, 3] && d.contains(&3) && !d.contains(&0) }
deque_retain { let mut d: VecDeque<i32> = (0..4).collect(); d.retain(|x| x % 2 == 1); d.make_contiguous().len() == 2 }
windows { [1, 2, 3].windows(2).map(|w| w[0] + w[1]).collect_vec() == [3, 5] }
schunks { [1, 2, 3].chunks(2).map(|c| c.len()).collect_vec() == [2, 1] && [1, 2, 3].chunks_exact(2).count() == 1 }
bsearch { [1, 3, 5].binary_search(&3) == Ok(1) && [1, 3, 5].binary_search(&4) == Err(2) && [1, 3, 5].partition_point(|x| *x < 4) == 2 && [1, 3, 5].binary_search_by_key(&5, |x| *x) == Ok(2) }
rotate { let mut a = [1, 2, 3, 4]; a.rotate_left(1); a.fill(7); let mut b = vec![1, 2, 3]; b.rotate_right(1); a == [7; 4] && b == [3, 1, 2] }
starts { [1, 2, 3].starts_with(&[1, 2]) && [1, 2, 3].ends_with(&[3]) && ![1].starts_with(&[1, 2]) }
to_vec { let a = [1, 2]; let mut v = a.to_vec(); v.push(3); v == [1, 2, 3] && a == [1, 2] }
copy_slice { let mut a = [0; 2]; a.copy_from_slice(&[4, 5]); a == [4, 5] }
chunk_by_slice { [1, 1, 2].chunk_by(|a, b| a == b).map(|c| c.len()).collect_vec() == [2, 1] }
slice_split { [1, 0, 2, 3].split(|x| *x == 0).map(|p| p.len()).collect_vec() == [1, 2] }
split_last { [1, 2, 3].split_last() == Some((&3, &[1, 2][..])) && [1, 2].split_first() == Some((&1, &[2][..])) }
map_retain { let mut m: BTreeMap<i32, i32> = (0..4).map(|x| (x, x * x)).collect(); m.retain(|k, v| { *v += 1; k % 2 == 0 }); m.into_iter().collect_vec() == vec![(0, 1), (2, 5)] }
map_pop { let mut m = BTreeMap::from([(2, 'b'), (1, 'a')]); m.first_key_value() == Some((&1, &'a')) && m.pop_last() == Some((2, 'b')) && m.pop_first() == Some((1, 'a')) && m.pop_first().is_none() }
map_range { let m = BTreeMap::from([(5, 'b'), (1, 'a'), (9, 'c')]); m.range(2..).map(|(k, _)| *k).collect_vec() == [5, 9] && m.range(..=5).count() == 2 }
map_remove_entry { let mut m = HashMap::from([(1, 'a')]); m.get_key_value(&1) == Some((&1, &'a')) && m.remove_entry(&1) == Some((1, 'a')) && m.is_empty() }
map_drain { let mut m = HashMap::from([(1, 'a')]); m.drain().collect_vec() == vec![(1, 'a')] && m.is_empty() }
map_append { let mut a = BTreeMap::from([(1, 1), (2, 2)]); let mut b = BTreeMap::from([(2, 9), (3, 3)]); a.append(&mut b); a.values().copied().collect_vec() == [1, 9, 3] && b.is_empty() }
entry_modify { let mut m: HashMap<&str, i32> = HashMap::new(); for w in ["a", "b", "a"] { m.entry(w).and_modify(|c| *c += 1).or_insert(1); } m["a"] == 2 && m["b"] == 1 }
entry_key { let mut m: HashMap<u32, u32> = HashMap::new(); *m.entry(4).or_insert_with_key(|k| k * 2) += 1; m[&4] == 9 }
set_ops { let a = BTreeSet::from([1, 2, 3]); let b = BTreeSet::from([2, 3, 4]); a.intersection(&b).copied().collect_vec() == [2, 3] && a.difference(&b).copied().collect_vec() == [1] && a.union(&b).count() == 4 && a.symmetric_difference(&b).copied().collect_vec() == [1, 4] && !a.is_subset(&b) && !a.is_disjoint(&b) }
set_bitops { let a = BTreeSet::from([1, 2]); let b = BTreeSet::from([2]); (&a - &b).len() == 1 && (&a | &b).len() == 2 && (&a & &b).contains(&2) && b.is_subset(&a) && a.is_superset(&b) }
set_take { let mut s = HashSet::from([1, 2]); s.take(&2) == Some(2) && !s.contains(&2) && s.replace(1) == Some(1) && s.get(&1) == Some(&1) }
set_last { let mut s = BTreeSet::from([1, 5, 3]); s.last() == Some(&5) && s.pop_last() == Some(5) && s.pop_first() == Some(1) && s.len() == 1 }
set_retain { let mut s = BTreeSet::from([1, 5, 3]); s.retain(|x| *x > 2); s.iter().copied().collect_vec() == [3, 5] }
index_set { let mut s = indexmap::IndexSet::new(); s.insert_full(5) == (0, true) && s.insert_full(3) == (1, true) && s.insert_full(5) == (0, false) && s.get_index_of(&3) == Some(1) && s.first() == Some(&5) }
index_map { let mut m = indexmap::IndexMap::new(); m.insert('b', 1); m.insert('a', 2); m.keys().copied().collect_vec() == ['b', 'a'] && m.get_index(1) == Some((&'a', &2)) && m.shift_remove(&'b') == Some(1) }
split_str { "a,b,c".split(',').collect_vec() == ["a", "b", "c"] && "a.b.c".splitn(2, '.').collect_vec() == ["a", "b.c"] && "a.b.c".rsplitn(2, '.').collect_vec() == ["c", "a.b"] }
split_once { "k=v=w".split_once('=') == Some(("k", "v=w")) && "k=v=w".rsplit_once("=") == Some(("k=v", "w")) && "x".split_once('=').is_none() }
find_str { "hello".find('l') == Some(2) && "hello".rfind("l") == Some(3) && "hello".find(|c: char| c == 'z').is_none() }
trims { "  x ".trim_start() == "x " && "xxaxx".trim_matches('x') == "a" && "q[3]".trim_end_matches(']') == "q[3" && "12ab".trim_start_matches(|c: char| c.is_ascii_digit()) == "ab" }
char_indices { "abc".char_indices().filter(|(_, c)| *c != 'b').map(|(i, _)| i).collect_vec() == [0, 2] }
parse_int { "42".parse::<usize>() == Ok(42) && "-1".parse::<usize>().is_err() && "300".parse::<u8>().is_err() && "-7".parse::<i64>() == Ok(-7) }
string_ops { let mut s = String::from("abc"); let p = s.pop(); s.insert(0, 'z'); s.extend(["q", "r"]); p == Some('c') && s == "zabqr" }
string_fmt { let mut s = String::new(); for (i, x) in ["a", "b"].iter().enumerate() { if i > 0 { s += ", "; } s.push_str(x); } s == "a, b" }
chars_rev { "abc".chars().rev().collect::<String>() == "cba" }
ints { 3usize.abs_diff(5) == 2 && 7u32.div_ceil(2) == 4 && 2u64.pow(10) == 1024 && (-7i32).rem_euclid(3) == 2 && 8u8.trailing_zeros() == 3 && 5usize.is_power_of_two() == false }
checked { 3u8.checked_sub(4).is_none() && 250u8.saturating_add(10) == 255 && 250u8.wrapping_add(10) == 4 && 250u8.overflowing_add(10) == (4, true) && 5usize.checked_add(1) == Some(6) }
clamp { 15.clamp(0, 10) == 10 && std::cmp::max(3, 4) == 4 && std::cmp::min_by_key(-3, 2, |x: &i32| x.abs()) == 2 }
floats { (2.5f64).floor() == 2.0 && (-2.5f64).round() == -3.0 && (-1.5f64).rem_euclid(2.0) == 0.5 && 2.0f64.max(3.0) == 3.0 }
cells { let c = Cell::new(3); c.set(c.get() + 1); let old = c.replace(10); let r = RefCell::new(vec![1]); r.borrow_mut().push(2); let t = r.take(); old == 4 && c.get() == 10 && t == [1, 2] && r.borrow().is_empty() }
mem_ops { let mut a = vec![1]; let b = std::mem::take(&mut a); let c = std::mem::replace(&mut a, vec![7]); b == [1] && c.is_empty() && a == [7] }
labeled_loop { let mut n = 0; 'o: for i in 0..5 { for j in 0..5 { if j == 3 { continue 'o; } if i == 3 { break 'o; } n += 1; } } n == 9 }
while_let { let mut st = vec![1, 2]; let mut s = 0; while let Some(x) = st.pop() { s = s * 10 + x; if x == 2 { st.push(5); } } s == 251 }
let_else { fn f(x: Option<u32>) -> u32 { let Some(y) = x else { return 0 }; y } f(Some(4)) + f(None) == 4 }
slice_pat { fn f(x: &[u32]) -> u32 { match x { [] => 0, [a] => *a, [a, .., b] => a * 10 + b } } f(&[]) == 0 && f(&[3]) == 3 && f(&[1, 7, 2]) == 12 }
sort_variants { let mut v = vec![(2, 'a'), (1, 'b'), (2, 'c')]; v.sort_by_key(|p| std::cmp::Reverse(p.0)); let mut w = vec![3, 1, 2]; w.sort_unstable_by(|a, b| b.cmp(a)); v[2] == (1, 'b') && w == [3, 2, 1] }
sort_floats { let mut v = vec![2.0, 1.0]; v.sort_by(|a: &f64, b: &f64| a.partial_cmp(b).unwrap()); v == [1.0, 2.0] }
max_min { [3, 1, 2].iter().max() == Some(&3) && [3, 1, 2].iter().min_by_key(|x| (**x as i32 - 2).abs()) == Some(&2) && ["b", "a"].iter().min() == Some(&"a") }
sum_prod { [1, 2, 3].iter().sum::<i32>() == 6 && (1..=4).product::<i32>() == 24 && [W(1), W(2)].iter().map(|w| w.0).sum::<u32>() == 3 }
flat { vec![vec![1], vec![], vec![2, 3]].into_iter().flatten().rev().collect_vec() == [3, 2, 1] && [1, 2].iter().flat_map(|n| std::iter::repeat_n(*n, *n)).collect_vec() == [1, 2, 2] }
zip_unzip { let (a, b): (Vec<i32>, Vec<char>) = [1, 2].into_iter().zip(['a', 'b']).unzip(); a == [1, 2] && b == ['a', 'b'] }
zip_longest { [1, 2].into_iter().zip_longest([5]).map(|e| e.reduce(|a, b| a + b)).collect_vec() == [6, 2] }
chain_enum { [1].iter().chain(&[2, 3]).enumerate().map(|(i, x)| i as i32 * x).collect_vec() == [0, 2, 6] }
skip_take_while { (0..10).skip_while(|x| *x < 3).take_while(|x| *x < 6).collect_vec() == [3, 4, 5] }
last_nth { (0..5).last() == Some(4) && (0..5).nth(2) == Some(2) && (0..5).rev().nth(1) == Some(3) && [1, 2, 3].iter().nth_back(0) == Some(&3) }
by_ref { let mut it = 0..6; let a = it.by_ref().take(2).collect_vec(); let b = it.collect_vec(); a == [0, 1] && b == [2, 3, 4, 5] }
try_collect_opt { [Some(1), None].into_iter().collect::<Option<Vec<i32>>>().is_none() && [Some(1)].into_iter().collect::<Option<Vec<_>>>() == Some(vec![1]) }
array_map { [1, 2].map(|x| x * 2) == [2, 4] && std::array::from_fn::<usize, 3, _>(|i| i * i) == [0, 1, 4] }
clone_from { let mut v = vec![1]; v.clone_from(&vec![2, 3]); let mut o = Some(4); o.clone_from(&None); v == [2, 3] && o.is_none() }
struct_ord { W(1) < W(2) && [W(3), W(1)].iter().max() == Some(&W(3)) && W(1).max(W(2)) == W(2) }
boxes { let f: Box<dyn Fn(i32) -> i32> = Box::new(|x| x + 1); f(2) == 3 }
fn_ptr { fn d(x: i32) -> i32 { x * 2 } let fs: [fn(i32) -> i32; 2] = [d, |x| x + 1]; fs.iter().fold(1, |a, f| f(a)) == 3 }
closure_ret { fn mk(n: i32) -> impl Fn(i32) -> i32 { move |x| x + n } [1, 2].map(mk(3)) == [4, 5] }
swap_slices { let mut v = vec![1, 2, 3]; v.swap(0, 2); let (a, b) = v.split_at_mut(1); a[0] += b[1]; v == [4, 2, 1] }
drain_splice { let mut v = vec![1, 2, 3, 4]; let d = v.drain(1..3).collect_vec(); let _ = v.splice(0..1, [8, 9]).count(); d == [2, 3] && v == [8, 9, 4] }
insert_remove { let mut v = vec![1, 3]; v.insert(1, 2); let r = v.swap_remove(0); r == 1 && v == [3, 2] }
iter_mut { let mut v = vec![1, 2]; for x in v.iter_mut() { *x *= 3; } v.iter_mut().enumerate().for_each(|(i, x)| *x += i as i32); v == [3, 7] }
values_mut { let mut m = BTreeMap::from([(1, 1), (2, 2)]); for v in m.values_mut() { *v += 1; } if let Some(x) = m.get_mut(&2) { *x *= 2; } m[&1] == 2 && m[&2] == 6 }
}
