//! What the iterator methods of the standard library that take closures do, as plain loops.
#![allow(clippy::all)]

pub fn find_map<S: Iterator, B, F: FnMut(S::Item) -> Option<B>>(it: &mut S, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}

pub fn find<S: Iterator, P: FnMut(&S::Item) -> bool>(it: &mut S, mut f: P) -> Option<S::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn any<S: Iterator, F: FnMut(S::Item) -> bool>(it: &mut S, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn all<S: Iterator, F: FnMut(S::Item) -> bool>(it: &mut S, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn position<S: Iterator, P: FnMut(S::Item) -> bool>(it: &mut S, mut f: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}

pub fn for_each<S: Iterator, F: FnMut(S::Item)>(it: S, mut f: F) {
    let mut it = it;
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn fold<S: Iterator, B, F: FnMut(B, S::Item) -> B>(it: S, init: B, mut f: F) -> B {
    let mut it = it;
    let mut b = init;
    while let Some(x) = it.next() {
        b = f(b, x);
    }
    b
}

pub fn try_for_each<S: Iterator, E, F: FnMut(S::Item) -> Result<(), E>>(it: &mut S, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        f(x)?;
    }
    Ok(())
}
