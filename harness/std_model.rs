// Bodies the analyser takes for functions of std that are written with raw pointers there.
// The exporter chooses them by the name of the function (REPLACED in driver/src/main.rs).
use std::borrow::Borrow;
use std::cmp::Ordering;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}

pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}

pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(*x);
    }
}

pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}

pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::replace(v, Vec::new());
    for mut x in old {
        if f(&mut x) {
            v.push(x);
        }
    }
}

pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let old = std::mem::replace(v, Vec::new());
    for x in old {
        let same = match v.last() {
            Some(y) => x == *y,
            None => false,
        };
        if !same {
            v.push(x);
        }
    }
}

pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    if n < v.len() {
        v.truncate(n);
    }
    while v.len() < n {
        v.push(f());
    }
}

pub fn reverse<T>(s: &mut [T]) {
    let n = s.len();
    let mut i = 0;
    while i < n / 2 {
        s.swap(i, n - 1 - i);
        i += 1;
    }
}

pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == Ordering::Less {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}

pub fn sort<T: Ord>(s: &mut [T]) {
    sort_by(s, |a, b| a.cmp(b));
}

pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    sort_by(s, |a, b| f(a).cmp(&f(b)));
}

pub fn concat<T: Clone, V: Borrow<[T]>>(s: &[V]) -> Vec<T> {
    let mut v = Vec::new();
    for x in s {
        v.extend_from_slice(x.borrow());
    }
    v
}

pub fn binary_search_by<'a, T, F: FnMut(&'a T) -> Ordering>(s: &'a [T], mut f: F) -> Result<usize, usize> {
    let mut a = 0;
    let mut b = s.len();
    while a < b {
        let m = a + (b - a) / 2;
        match f(&s[m]) {
            Ordering::Equal => return Ok(m),
            Ordering::Less => a = m + 1,
            Ordering::Greater => b = m,
        }
    }
    Err(a)
}

pub fn contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s {
        if *y == *x {
            return true;
        }
    }
    false
}

pub fn is_sorted<T: PartialOrd>(s: &[T]) -> bool {
    let mut i = 1;
    while i < s.len() {
        if !(s[i - 1] <= s[i]) {
            return false;
        }
        i += 1;
    }
    true
}

pub fn iter_all<'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn iter_any<'a, T, F: FnMut(&'a T) -> bool>(it: &mut std::slice::Iter<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn iter_mut_all<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut std::slice::IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn iter_mut_any<'a, T, F: FnMut(&'a mut T) -> bool>(it: &mut std::slice::IterMut<'a, T>, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn rotate_left<T>(s: &mut [T], n: usize) {
    assert!(n <= s.len());
    let mut i = 0;
    while i < n {
        let mut j = 1;
        while j < s.len() {
            s.swap(j - 1, j);
            j += 1;
        }
        i += 1;
    }
}

pub fn rotate_right<T>(s: &mut [T], n: usize) {
    assert!(n <= s.len());
    let k = s.len() - n;
    rotate_left(s, k);
}

pub fn vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> T {
    assert!(i < v.len());
    let n = v.len() - 1;
    v.swap(i, n);
    v.pop().unwrap()
}

pub fn vec_extend_from_within<T: Clone, R: std::ops::RangeBounds<usize>>(v: &mut Vec<T>, r: R) {
    let a = match r.start_bound() {
        std::ops::Bound::Included(x) => *x,
        std::ops::Bound::Excluded(x) => *x + 1,
        std::ops::Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        std::ops::Bound::Included(x) => *x + 1,
        std::ops::Bound::Excluded(x) => *x,
        std::ops::Bound::Unbounded => v.len(),
    };
    let w = v[a .. b].to_vec();
    v.extend_from_slice(&w);
}

pub fn vec_from_array<T, const N: usize>(a: [T; N]) -> Vec<T> {
    let mut v = Vec::new();
    for x in a {
        v.push(x);
    }
    v
}

pub fn string_from_iter<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut s = String::new();
    for c in it {
        s.push(c);
    }
    s
}

pub fn string_extend<I: IntoIterator<Item = char>>(s: &mut String, it: I) {
    for c in it {
        s.push(c);
    }
}
