//! Models of std combinators. The value-flow engine maps a std path to a function here and analyses
//! the body in place of the call, so that `opt.map(f)` and `match opt {..}` look the same to a rule.
#![allow(dead_code)]

pub mod option {
    pub fn map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
        match o { Some(x) => Some(f(x)), None => None }
    }
    pub fn inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
        match o { Some(x) => { f(&x); Some(x) } None => None }
    }
    pub fn and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
        match o { Some(x) => f(x), None => None }
    }
    pub fn and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> {
        match o { Some(_) => b, None => None }
    }
    pub fn or<T>(o: Option<T>, b: Option<T>) -> Option<T> {
        match o { Some(x) => Some(x), None => b }
    }
    pub fn or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
        match o { Some(x) => Some(x), None => f() }
    }
    pub fn filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
        match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
    }
    pub fn unwrap_or<T>(o: Option<T>, d: T) -> T {
        match o { Some(x) => x, None => d }
    }
    pub fn unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
        match o { Some(x) => x, None => f() }
    }
    pub fn unwrap_or_default<T: Default>(o: Option<T>) -> T {
        match o { Some(x) => x, None => T::default() }
    }
    pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
        match o { Some(x) => f(x), None => d }
    }
    pub fn map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
        match o { Some(x) => f(x), None => d() }
    }
    pub fn is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o { Some(x) => f(x), None => false }
    }
    pub fn is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o { Some(x) => f(x), None => true }
    }
    pub fn is_some<T>(o: &Option<T>) -> bool {
        match o { Some(_) => true, None => false }
    }
    pub fn is_none<T>(o: &Option<T>) -> bool {
        match o { Some(_) => false, None => true }
    }
    pub fn ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
        match o { Some(x) => Ok(x), None => Err(e) }
    }
    pub fn ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
        match o { Some(x) => Ok(x), None => Err(f()) }
    }
    pub fn zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
        match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None }
    }
    pub fn flatten<T>(o: Option<Option<T>>) -> Option<T> {
        match o { Some(x) => x, None => None }
    }
    pub fn transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
        match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
    }
    pub fn get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
        match o { Some(_) => {} None => { *o = Some(f()); } }
        match o { Some(x) => x, None => loop {} }
    }
}

pub mod result {
    pub fn map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
        match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
    }
    pub fn map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> {
        match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
    }
    pub fn and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
        match o { Ok(x) => f(x), Err(e) => Err(e) }
    }
    pub fn or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> {
        match o { Ok(x) => Ok(x), Err(e) => f(e) }
    }
    pub fn ok<T, E>(o: Result<T, E>) -> Option<T> {
        match o { Ok(x) => Some(x), Err(_) => None }
    }
    pub fn err<T, E>(o: Result<T, E>) -> Option<E> {
        match o { Ok(_) => None, Err(e) => Some(e) }
    }
    pub fn unwrap_or<T, E>(o: Result<T, E>, d: T) -> T {
        match o { Ok(x) => x, Err(_) => d }
    }
    pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
        match o { Ok(x) => x, Err(e) => f(e) }
    }
    pub fn unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T {
        match o { Ok(x) => x, Err(_) => T::default() }
    }
    pub fn map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
        match o { Ok(x) => f(x), Err(_) => d }
    }
    pub fn map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
        match o { Ok(x) => f(x), Err(e) => d(e) }
    }
    pub fn is_ok<T, E>(o: &Result<T, E>) -> bool {
        match o { Ok(_) => true, Err(_) => false }
    }
    pub fn is_err<T, E>(o: &Result<T, E>) -> bool {
        match o { Ok(_) => false, Err(_) => true }
    }
    pub fn is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool {
        match o { Ok(x) => f(x), Err(_) => false }
    }
    pub fn is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool {
        match o { Ok(_) => false, Err(e) => f(e) }
    }
}

pub mod panics {
    use std::any::Any;
    extern "Rust" {
        fn unwinds() -> bool;
        fn payload() -> Box<dyn Any + Send>;
    }
    /// Whether the code panics is not known: both outcomes are followed.
    pub fn catch<R, F: FnOnce() -> R>(f: F) -> Result<R, Box<dyn Any + Send>> {
        let r = f();
        if unsafe { unwinds() } { Err(unsafe { payload() }) } else { Ok(r) }
    }
}

pub mod boolean {
    pub fn then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
        if b { Some(f()) } else { None }
    }
    pub fn then_some<T>(b: bool, t: T) -> Option<T> {
        if b { Some(t) } else { None }
    }
}

pub mod iter {
    pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
        while let Some(x) = it.next() { f(x); }
    }
    pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
        while let Some(x) = it.next() {
            match f(x) { Ok(_) => {} Err(e) => return Err(e) }
        }
        Ok(())
    }
    pub fn try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
        while let Some(x) = it.next() {
            match f(x) { Some(_) => {} None => return None }
        }
        Some(())
    }
    pub fn try_fold<I: Iterator, A, E, F: FnMut(A, I::Item) -> Result<A, E>>(it: &mut I, init: A, mut f: F) -> Result<A, E> {
        let mut acc = init;
        while let Some(x) = it.next() {
            match f(acc, x) { Ok(y) => acc = y, Err(e) => return Err(e) }
        }
        Ok(acc)
    }
    pub fn try_fold_opt<I: Iterator, A, F: FnMut(A, I::Item) -> Option<A>>(it: &mut I, init: A, mut f: F) -> Option<A> {
        let mut acc = init;
        while let Some(x) = it.next() {
            match f(acc, x) { Some(y) => acc = y, None => return None }
        }
        Some(acc)
    }
    pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if f(x) { return true; } }
        false
    }
    pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() { if !f(x) { return false; } }
        true
    }
    pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = it.next() { if f(&x) { return Some(x); } }
        None
    }
    pub fn find_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(it: &mut I, mut f: F) -> Option<U> {
        while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
        None
    }
    pub fn fold<I: Iterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
        let mut acc = init;
        while let Some(x) = it.next() { acc = f(acc, x); }
        acc
    }
    pub fn count<I: Iterator>(mut it: I) -> usize {
        let mut n: usize = 0;
        while let Some(_) = it.next() { n += 1; }
        n
    }
    pub fn sum_usize<I: Iterator<Item = usize>>(mut it: I) -> usize {
        let mut n: usize = 0;
        while let Some(x) = it.next() { n += x; }
        n
    }
    pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut n: usize = 0;
        while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
        None
    }
    pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
        let mut v = Vec::new();
        while let Some(x) = it.next() { v.push(x); }
        v
    }
    pub fn retain_string<F: FnMut(char) -> bool>(s: &mut String, mut f: F) {
        let mut v = String::new();
        for c in s.chars() { if f(c) { v.push(c); } }
        *s = v;
    }
    pub fn remove_chars<F: FnMut(char) -> bool>(s: &str, mut f: F) -> String {
        let mut v = String::new();
        for c in s.chars() { if !f(c) { v.push(c); } }
        v
    }
    pub fn collect_string<I: Iterator<Item = char>>(mut it: I) -> String {
        let mut v = String::new();
        while let Some(x) = it.next() { v.push(x); }
        v
    }
    pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
        }
        Ok(v)
    }
    pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            match x { Some(y) => v.push(y), None => return None }
        }
        Some(v)
    }
    pub fn unzip<A, B, I: Iterator<Item = (A, B)>>(mut it: I) -> (Vec<A>, Vec<B>) {
        let mut a = Vec::new();
        let mut b = Vec::new();
        while let Some((x, y)) = it.next() { a.push(x); b.push(y); }
        (a, b)
    }
    pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
        let mut a = Vec::new();
        let mut b = Vec::new();
        while let Some(x) = it.next() { if f(&x) { a.push(x); } else { b.push(x); } }
        (a, b)
    }
    pub fn vec_extend<I: Iterator>(v: &mut Vec<I::Item>, mut it: I) {
        while let Some(x) = it.next() { v.push(x); }
    }
    pub fn string_extend<I: Iterator<Item = char>>(v: &mut String, mut it: I) {
        while let Some(x) = it.next() { v.push(x); }
    }
}

pub mod coll {
    /// marker: the element is removed from the collection
    #[inline(never)]
    pub fn removed<C, T>(_c: &mut C, _x: T) {}
    pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let mut it = v.iter_mut();
        while let Some(x) = it.next() {
            if !f(&*x) { removed(&mut (), x); }
        }
    }
    pub fn retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let mut it = v.iter_mut();
        while let Some(x) = it.next() {
            if !f(&mut *x) { removed(&mut (), x); }
        }
    }
    pub fn map_retain<K, V, F: FnMut(&K, &mut V) -> bool>(v: &mut std::collections::HashMap<K, V>, mut f: F) {
        let mut it = v.iter_mut();
        while let Some((k, x)) = it.next() {
            if !f(k, &mut *x) { removed(&mut (), k); }
        }
    }
}
