//! Reference semantics of the std combinators and iterator adapters the analysed crate uses,
//! written as plain Rust and compiled to MIR by the same driver.  The analyser inlines these
//! bodies in place of the (MIR-less) std functions; nothing here is ever executed.
#![allow(dead_code, unused, clippy::all)]

pub mod vmodel {
    use std::collections::HashMap;

    // ---------------------------------------------------------------- primitives (python models)
    pub fn nondet() -> bool {
        loop {}
    }
    pub fn slice_len<T>(s: &[T]) -> usize {
        s.len()
    }
    pub fn empty_vec<T>() -> Vec<T> {
        loop {}
    }
    pub fn push_vec<T>(v: &mut Vec<T>, x: T) {
        loop {}
    }
    /// a value computed from all the elements seen
    pub fn absorb<A, B, C>(a: A, b: B) -> C {
        loop {}
    }

    // ---------------------------------------------------------------- Option
    pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
        match o {
            Some(x) => Some(f(x)),
            None => None,
        }
    }
    pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
        if let Some(ref x) = o {
            f(x);
        }
        o
    }
    pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
        match o {
            Some(x) => f(x),
            None => None,
        }
    }
    pub fn opt_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
        match o {
            Some(_) => p,
            None => None,
        }
    }
    pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
        match o {
            Some(x) => Ok(x),
            None => Err(e),
        }
    }
    pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
        match o {
            Some(x) => Ok(x),
            None => Err(f()),
        }
    }
    pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T {
        match o {
            Some(x) => x,
            None => d,
        }
    }
    pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
        match o {
            Some(x) => x,
            None => f(),
        }
    }
    pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
        match o {
            Some(x) => f(x),
            None => d,
        }
    }
    pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
        match o {
            Some(x) => f(x),
            None => d(),
        }
    }
    pub fn opt_is_some<T>(o: &Option<T>) -> bool {
        match o {
            Some(_) => true,
            None => false,
        }
    }
    pub fn opt_is_none<T>(o: &Option<T>) -> bool {
        match o {
            Some(_) => false,
            None => true,
        }
    }
    pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o {
            Some(x) => f(x),
            None => false,
        }
    }
    pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o {
            Some(x) => f(x),
            None => true,
        }
    }
    pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> {
        match o {
            Some(x) => Some(x),
            None => None,
        }
    }
    pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
        match o {
            Some(x) => Some(x),
            None => None,
        }
    }
    pub fn opt_copied<T: Copy>(o: Option<&T>) -> Option<T> {
        match o {
            Some(x) => Some(*x),
            None => None,
        }
    }
    pub fn opt_cloned<T: Clone>(o: Option<&T>) -> Option<T> {
        match o {
            Some(x) => Some(x.clone()),
            None => None,
        }
    }
    pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
        match o {
            Some(x) => Some(x),
            None => p,
        }
    }
    pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
        match o {
            Some(x) => Some(x),
            None => f(),
        }
    }
    pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
        match o {
            Some(x) => {
                if f(&x) {
                    Some(x)
                } else {
                    None
                }
            }
            None => None,
        }
    }
    pub fn opt_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
        match o {
            Some(x) => match p {
                Some(y) => Some((x, y)),
                None => None,
            },
            None => None,
        }
    }
    pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> {
        match o {
            Some(x) => x,
            None => None,
        }
    }
    pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> {
        std::mem::replace(o, None)
    }
    pub fn opt_replace<T>(o: &mut Option<T>, v: T) -> Option<T> {
        std::mem::replace(o, Some(v))
    }
    pub fn opt_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
        *o = Some(v);
        match o {
            Some(x) => x,
            None => loop {},
        }
    }
    pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
        if let None = *o {
            *o = Some(f());
        }
        match o {
            Some(x) => x,
            None => loop {},
        }
    }
    pub fn opt_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
        match o {
            Some(Ok(x)) => Ok(Some(x)),
            Some(Err(e)) => Err(e),
            None => Ok(None),
        }
    }

    // ---------------------------------------------------------------- Result
    pub fn res_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
        match r {
            Ok(x) => Ok(f(x)),
            Err(e) => Err(e),
        }
    }
    pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => Err(f(e)),
        }
    }
    pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
        match r {
            Ok(x) => f(x),
            Err(e) => Err(e),
        }
    }
    pub fn res_and<T, E, U>(r: Result<T, E>, s: Result<U, E>) -> Result<U, E> {
        match r {
            Ok(_) => s,
            Err(e) => Err(e),
        }
    }
    pub fn res_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => f(e),
        }
    }
    pub fn res_ok<T, E>(r: Result<T, E>) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(_) => None,
        }
    }
    pub fn res_err<T, E>(r: Result<T, E>) -> Option<E> {
        match r {
            Ok(_) => None,
            Err(e) => Some(e),
        }
    }
    pub fn res_is_ok<T, E>(r: &Result<T, E>) -> bool {
        match r {
            Ok(_) => true,
            Err(_) => false,
        }
    }
    pub fn res_is_err<T, E>(r: &Result<T, E>) -> bool {
        match r {
            Ok(_) => false,
            Err(_) => true,
        }
    }
    pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool {
        match r {
            Ok(x) => f(x),
            Err(_) => false,
        }
    }
    pub fn res_is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool {
        match r {
            Ok(_) => false,
            Err(e) => f(e),
        }
    }
    pub fn res_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
        match r {
            Ok(x) => x,
            Err(_) => d,
        }
    }
    pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
        match r {
            Ok(x) => x,
            Err(e) => f(e),
        }
    }
    pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
        match r {
            Ok(x) => f(x),
            Err(_) => d,
        }
    }
    pub fn res_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
        match r {
            Ok(x) => f(x),
            Err(e) => d(e),
        }
    }
    pub fn res_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => Err(e),
        }
    }
    pub fn res_as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => Err(e),
        }
    }
    pub fn res_inspect_err<T, E, F: FnOnce(&E)>(r: Result<T, E>, f: F) -> Result<T, E> {
        if let Err(ref e) = r {
            f(e);
        }
        r
    }
    pub fn res_inspect<T, E, F: FnOnce(&T)>(r: Result<T, E>, f: F) -> Result<T, E> {
        if let Ok(ref e) = r {
            f(e);
        }
        r
    }

    // ---------------------------------------------------------------- bool
    pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
        if b {
            Some(f())
        } else {
            None
        }
    }
    pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> {
        if b {
            Some(x)
        } else {
            None
        }
    }

    // ---------------------------------------------------------------- iterators
    pub struct SliceIter<'a, T> {
        pub s: &'a [T],
        pub i: usize,
        pub n: usize,
    }
    impl<'a, T> Iterator for SliceIter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            if self.i < self.n {
                let i = self.i;
                self.i = i + 1;
                Some(&self.s[i])
            } else {
                None
            }
        }
    }
    impl<'a, T> DoubleEndedIterator for SliceIter<'a, T> {
        fn next_back(&mut self) -> Option<&'a T> {
            if self.i < self.n {
                let i = self.n - 1;
                self.n = i;
                Some(&self.s[i])
            } else {
                None
            }
        }
    }
    pub fn slice_iter<T>(s: &[T]) -> SliceIter<'_, T> {
        let n = s.len();
        SliceIter { s, i: 0, n }
    }

    pub struct SliceIterMut<'a, T> {
        pub s: &'a mut [T],
        pub i: usize,
        pub n: usize,
    }
    impl<'a, T> Iterator for SliceIterMut<'a, T> {
        type Item = &'a mut T;
        fn next(&mut self) -> Option<&'a mut T> {
            if self.i < self.n {
                let i = self.i;
                self.i = i + 1;
                let p: *mut T = &mut self.s[i];
                Some(unsafe { &mut *p })
            } else {
                None
            }
        }
    }
    pub fn slice_iter_mut<T>(s: &mut [T]) -> SliceIterMut<'_, T> {
        let n = s.len();
        SliceIterMut { s, i: 0, n }
    }

    /// by-value iteration over a sequence
    pub struct ValIter<T> {
        pub s: Vec<T>,
        pub i: usize,
        pub n: usize,
    }
    impl<T> Iterator for ValIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.i < self.n {
                let i = self.i;
                self.i = i + 1;
                Some(take_elem(&self.s, i))
            } else {
                None
            }
        }
    }
    pub fn take_elem<T>(s: &Vec<T>, i: usize) -> T {
        loop {}
    }
    pub fn val_iter<T>(s: Vec<T>) -> ValIter<T> {
        let n = s.len();
        ValIter { s, i: 0, n }
    }

    pub struct Chunks<'a, T> {
        pub s: &'a [T],
        pub i: usize,
        pub k: usize,
        pub exact: bool,
    }
    impl<'a, T> Iterator for Chunks<'a, T> {
        type Item = &'a [T];
        fn next(&mut self) -> Option<&'a [T]> {
            let n = self.s.len();
            let i = self.i;
            if i >= n {
                return None;
            }
            if n - i >= self.k {
                self.i = i + self.k;
                Some(&self.s[i..i + self.k])
            } else if self.exact {
                None
            } else {
                self.i = n;
                Some(&self.s[i..n])
            }
        }
    }
    pub fn chunks<T>(s: &[T], k: usize) -> Chunks<'_, T> {
        if k == 0 {
            panic!("chunk size must be non-zero");
        }
        Chunks { s, i: 0, k, exact: false }
    }
    pub fn chunks_exact<T>(s: &[T], k: usize) -> Chunks<'_, T> {
        if k == 0 {
            panic!("chunk size must be non-zero");
        }
        Chunks { s, i: 0, k, exact: true }
    }
    pub struct Windows<'a, T> {
        pub s: &'a [T],
        pub i: usize,
        pub k: usize,
    }
    impl<'a, T> Iterator for Windows<'a, T> {
        type Item = &'a [T];
        fn next(&mut self) -> Option<&'a [T]> {
            let i = self.i;
            if i + self.k <= self.s.len() {
                self.i = i + 1;
                Some(&self.s[i..i + self.k])
            } else {
                None
            }
        }
    }
    pub fn windows<T>(s: &[T], k: usize) -> Windows<'_, T> {
        if k == 0 {
            panic!("window size must be non-zero");
        }
        Windows { s, i: 0, k }
    }

    /// iteration over an unordered or opaque source: any number of its members, in any order
    pub struct AnyIter<S> {
        pub src: S,
        pub kind: u8,
    }
    pub fn any_item<S, T>(src: &S, kind: u8) -> T {
        loop {}
    }

    pub struct Map<I, F> {
        pub iter: I,
        pub f: F,
    }
    impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            match self.iter.next() {
                Some(x) => Some((self.f)(x)),
                None => None,
            }
        }
    }
    pub fn it_map<B, I: Iterator, F: FnMut(I::Item) -> B>(iter: I, f: F) -> Map<I, F> {
        Map { iter, f }
    }
    pub struct Filter<I, F> {
        pub iter: I,
        pub f: F,
    }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            loop {
                match self.iter.next() {
                    Some(x) => {
                        if (self.f)(&x) {
                            return Some(x);
                        }
                    }
                    None => return None,
                }
            }
        }
    }
    pub fn it_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: I, f: F) -> Filter<I, F> {
        Filter { iter, f }
    }
    pub struct FilterMap<I, F> {
        pub iter: I,
        pub f: F,
    }
    impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            loop {
                match self.iter.next() {
                    Some(x) => {
                        if let Some(y) = (self.f)(x) {
                            return Some(y);
                        }
                    }
                    None => return None,
                }
            }
        }
    }
    pub fn it_filter_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(iter: I, f: F) -> FilterMap<I, F> {
        FilterMap { iter, f }
    }
    pub struct Enumerate<I> {
        pub iter: I,
        pub i: usize,
    }
    impl<I: Iterator> Iterator for Enumerate<I> {
        type Item = (usize, I::Item);
        fn next(&mut self) -> Option<(usize, I::Item)> {
            match self.iter.next() {
                Some(x) => {
                    let i = self.i;
                    self.i = i + 1;
                    Some((i, x))
                }
                None => None,
            }
        }
    }
    pub fn it_enumerate<I: Iterator>(iter: I) -> Enumerate<I> {
        Enumerate { iter, i: 0 }
    }
    pub struct Take<I> {
        pub iter: I,
        pub n: usize,
    }
    impl<I: Iterator> Iterator for Take<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.n > 0 {
                self.n = self.n - 1;
                self.iter.next()
            } else {
                None
            }
        }
    }
    pub fn it_take<I: Iterator>(iter: I, n: usize) -> Take<I> {
        Take { iter, n }
    }
    pub struct Skip<I> {
        pub iter: I,
        pub n: usize,
    }
    impl<I: Iterator> Iterator for Skip<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            while self.n > 0 {
                self.n = self.n - 1;
                match self.iter.next() {
                    Some(_) => {}
                    None => return None,
                }
            }
            self.iter.next()
        }
    }
    pub fn it_skip<I: Iterator>(iter: I, n: usize) -> Skip<I> {
        Skip { iter, n }
    }
    pub struct StepBy<I> {
        pub iter: I,
        pub n: usize,
        pub first: bool,
    }
    impl<I: Iterator> Iterator for StepBy<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.first {
                self.first = false;
                return self.iter.next();
            }
            let mut k = 1;
            while k < self.n {
                match self.iter.next() {
                    Some(_) => {}
                    None => return None,
                }
                k += 1;
            }
            self.iter.next()
        }
    }
    pub fn it_step_by<I: Iterator>(iter: I, n: usize) -> StepBy<I> {
        if n == 0 {
            panic!("step must be non-zero");
        }
        StepBy { iter, n, first: true }
    }
    pub struct TakeWhile<I, F> {
        pub iter: I,
        pub f: F,
        pub done: bool,
    }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.done {
                return None;
            }
            match self.iter.next() {
                Some(x) => {
                    if (self.f)(&x) {
                        Some(x)
                    } else {
                        self.done = true;
                        None
                    }
                }
                None => None,
            }
        }
    }
    pub fn it_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: I, f: F) -> TakeWhile<I, F> {
        TakeWhile { iter, f, done: false }
    }
    pub struct SkipWhile<I, F> {
        pub iter: I,
        pub f: F,
        pub started: bool,
    }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            loop {
                match self.iter.next() {
                    Some(x) => {
                        if self.started {
                            return Some(x);
                        }
                        if !(self.f)(&x) {
                            self.started = true;
                            return Some(x);
                        }
                    }
                    None => return None,
                }
            }
        }
    }
    pub fn it_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: I, f: F) -> SkipWhile<I, F> {
        SkipWhile { iter, f, started: false }
    }
    pub struct Chain<A, B> {
        pub a: A,
        pub b: B,
        pub first: bool,
    }
    impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
        type Item = A::Item;
        fn next(&mut self) -> Option<A::Item> {
            if self.first {
                match self.a.next() {
                    Some(x) => return Some(x),
                    None => self.first = false,
                }
            }
            self.b.next()
        }
    }
    pub fn it_chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> Chain<A, B::IntoIter> {
        Chain { a, b: b.into_iter(), first: true }
    }
    pub struct Zip<A, B> {
        pub a: A,
        pub b: B,
    }
    impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        fn next(&mut self) -> Option<(A::Item, B::Item)> {
            match self.a.next() {
                Some(x) => match self.b.next() {
                    Some(y) => Some((x, y)),
                    None => None,
                },
                None => None,
            }
        }
    }
    pub fn it_zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> {
        Zip { a, b: b.into_iter() }
    }
    pub struct Cloned<I> {
        pub iter: I,
    }
    impl<'a, T: 'a + Clone, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match self.iter.next() {
                Some(x) => Some(x.clone()),
                None => None,
            }
        }
    }
    pub fn it_cloned<'a, T: 'a + Clone, I: Iterator<Item = &'a T>>(iter: I) -> Cloned<I> {
        Cloned { iter }
    }
    pub struct Rev<I> {
        pub iter: I,
    }
    impl<I: DoubleEndedIterator> Iterator for Rev<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.iter.next_back()
        }
    }
    pub fn it_rev<I: DoubleEndedIterator>(iter: I) -> Rev<I> {
        Rev { iter }
    }
    pub struct Peekable<I: Iterator> {
        pub iter: I,
        pub peeked: Option<Option<I::Item>>,
    }
    impl<I: Iterator> Iterator for Peekable<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match std::mem::replace(&mut self.peeked, None) {
                Some(v) => v,
                None => self.iter.next(),
            }
        }
    }
    pub fn it_peekable<I: Iterator>(iter: I) -> Peekable<I> {
        Peekable { iter, peeked: None }
    }
    pub fn peekable_peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
        if let None = p.peeked {
            p.peeked = Some(p.iter.next());
        }
        match &p.peeked {
            Some(Some(x)) => Some(x),
            _ => None,
        }
    }
    pub struct Flatten<I, U> {
        pub iter: I,
        pub cur: Option<U>,
    }
    impl<I: Iterator<Item = T>, T: IntoIterator> Iterator for Flatten<I, T::IntoIter> {
        type Item = T::Item;
        fn next(&mut self) -> Option<T::Item> {
            loop {
                if let Some(c) = &mut self.cur {
                    match c.next() {
                        Some(x) => return Some(x),
                        None => {}
                    }
                }
                match self.iter.next() {
                    Some(x) => self.cur = Some(x.into_iter()),
                    None => return None,
                }
            }
        }
    }
    pub fn it_flatten<I: Iterator<Item = T>, T: IntoIterator>(iter: I) -> Flatten<I, T::IntoIter> {
        Flatten { iter, cur: None }
    }
    pub fn it_flat_map<I: Iterator, T: IntoIterator, F: FnMut(I::Item) -> T>(iter: I, f: F) -> Flatten<Map<I, F>, T::IntoIter> {
        Flatten { iter: Map { iter, f }, cur: None }
    }
    // flatten over owned, shared and mutable options
    pub struct FlattenOpt<I> {
        pub iter: I,
    }
    impl<I: Iterator<Item = Option<T>>, T> Iterator for FlattenOpt<I> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            loop {
                match self.iter.next() {
                    Some(Some(x)) => return Some(x),
                    Some(None) => {}
                    None => return None,
                }
            }
        }
    }
    pub fn it_flatten_opt<I: Iterator<Item = Option<T>>, T>(iter: I) -> FlattenOpt<I> {
        FlattenOpt { iter }
    }
    pub struct FlattenOptRef<I> {
        pub iter: I,
    }
    impl<'a, I: Iterator<Item = &'a Option<T>>, T: 'a> Iterator for FlattenOptRef<I> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            loop {
                match self.iter.next() {
                    Some(Some(x)) => return Some(x),
                    Some(None) => {}
                    None => return None,
                }
            }
        }
    }
    pub fn it_flatten_opt_ref<'a, I: Iterator<Item = &'a Option<T>>, T: 'a>(iter: I) -> FlattenOptRef<I> {
        FlattenOptRef { iter }
    }
    pub struct FlattenOptMut<I> {
        pub iter: I,
    }
    impl<'a, I: Iterator<Item = &'a mut Option<T>>, T: 'a> Iterator for FlattenOptMut<I> {
        type Item = &'a mut T;
        fn next(&mut self) -> Option<&'a mut T> {
            loop {
                match self.iter.next() {
                    Some(Some(x)) => return Some(x),
                    Some(None) => {}
                    None => return None,
                }
            }
        }
    }
    pub fn it_flatten_opt_mut<'a, I: Iterator<Item = &'a mut Option<T>>, T: 'a>(iter: I) -> FlattenOptMut<I> {
        FlattenOptMut { iter }
    }
    pub struct Inspect<I, F> {
        pub iter: I,
        pub f: F,
    }
    impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match self.iter.next() {
                Some(x) => {
                    (self.f)(&x);
                    Some(x)
                }
                None => None,
            }
        }
    }
    pub fn it_inspect<I: Iterator, F: FnMut(&I::Item)>(iter: I, f: F) -> Inspect<I, F> {
        Inspect { iter, f }
    }
    pub struct OnceIter<T> {
        pub v: Option<T>,
    }
    impl<T> Iterator for OnceIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            std::mem::replace(&mut self.v, None)
        }
    }
    pub fn opt_into_iter<T>(v: Option<T>) -> OnceIter<T> {
        OnceIter { v }
    }
    pub fn opt_iter<T>(v: &Option<T>) -> OnceIter<&T> {
        OnceIter { v: match v { Some(x) => Some(x), None => None } }
    }

    // ---- consumers
    pub fn it_count<I: Iterator>(mut iter: I) -> usize {
        let mut n = 0;
        while let Some(_) = iter.next() {
            n += 1;
        }
        n
    }
    pub fn it_last<I: Iterator>(mut iter: I) -> Option<I::Item> {
        let mut l = None;
        while let Some(x) = iter.next() {
            l = Some(x);
        }
        l
    }
    pub fn it_nth<I: Iterator>(iter: &mut I, n: usize) -> Option<I::Item> {
        let mut k = 0;
        while k < n {
            match iter.next() {
                Some(_) => {}
                None => return None,
            }
            k += 1;
        }
        iter.next()
    }
    pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut iter: I, mut f: F) {
        while let Some(x) = iter.next() {
            f(x);
        }
    }
    pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut iter: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = iter.next() {
            acc = f(acc, x);
        }
        acc
    }
    pub fn it_try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(iter: &mut I, init: B, mut f: F) -> Option<B> {
        let mut acc = init;
        while let Some(x) = iter.next() {
            acc = f(acc, x)?;
        }
        Some(acc)
    }
    pub fn it_try_fold_res<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(iter: &mut I, init: B, mut f: F) -> Result<B, E> {
        let mut acc = init;
        while let Some(x) = iter.next() {
            acc = f(acc, x)?;
        }
        Ok(acc)
    }
    pub fn it_try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(iter: &mut I, mut f: F) -> Option<()> {
        while let Some(x) = iter.next() {
            f(x)?;
        }
        Some(())
    }
    pub fn it_try_for_each_res<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(iter: &mut I, mut f: F) -> Result<(), E> {
        while let Some(x) = iter.next() {
            f(x)?;
        }
        Ok(())
    }
    pub fn it_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut iter: I, mut f: F) -> Option<I::Item> {
        let mut acc = match iter.next() {
            Some(x) => x,
            None => return None,
        };
        while let Some(x) = iter.next() {
            acc = f(acc, x);
        }
        Some(acc)
    }
    pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> bool {
        while let Some(x) = iter.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> bool {
        while let Some(x) = iter.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = iter.next() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(iter: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = iter.next() {
            if let Some(y) = f(x) {
                return Some(y);
            }
        }
        None
    }
    pub fn it_position<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = iter.next() {
            if f(x) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn it_sum<I: Iterator, S>(mut iter: I) -> S {
        let mut acc: S = absorb(0u8, 0u8);
        while let Some(x) = iter.next() {
            acc = absorb(acc, x);
        }
        acc
    }
    /// max/min by key or comparator: some element, every element offered to the closure
    pub fn it_pick_key<I: Iterator, K, F: FnMut(&I::Item) -> K>(mut iter: I, mut f: F) -> Option<I::Item> {
        let mut best = None;
        while let Some(x) = iter.next() {
            f(&x);
            if let None = best {
                best = Some(x);
            } else if nondet() {
                best = Some(x);
            }
        }
        best
    }
    pub fn it_pick_cmp<I: Iterator, F: FnMut(&I::Item, &I::Item) -> std::cmp::Ordering>(mut iter: I, mut f: F) -> Option<I::Item> {
        let mut best = None;
        while let Some(x) = iter.next() {
            match &best {
                None => best = Some(x),
                Some(b) => {
                    f(b, &x);
                    if nondet() {
                        best = Some(x);
                    }
                }
            }
        }
        best
    }
    pub fn it_pick<I: Iterator>(mut iter: I) -> Option<I::Item> {
        let mut best = None;
        while let Some(x) = iter.next() {
            if let None = best {
                best = Some(x);
            } else if nondet() {
                best = Some(x);
            }
        }
        best
    }
    pub fn collect_vec<I: IntoIterator>(iter: I) -> Vec<I::Item> {
        let mut iter = iter.into_iter();
        let mut v = empty_vec();
        while let Some(x) = iter.next() {
            push_vec(&mut v, x);
        }
        v
    }
    pub fn extend_vec<I: IntoIterator>(v: &mut Vec<I::Item>, iter: I) {
        let mut iter = iter.into_iter();
        while let Some(x) = iter.next() {
            push_vec(v, x);
        }
    }
    pub fn collect_res_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut iter: I) -> Result<Vec<T>, E> {
        let mut v = empty_vec();
        while let Some(x) = iter.next() {
            match x {
                Ok(x) => push_vec(&mut v, x),
                Err(e) => return Err(e),
            }
        }
        Ok(v)
    }
    pub fn collect_opt_vec<T, I: Iterator<Item = Option<T>>>(mut iter: I) -> Option<Vec<T>> {
        let mut v = empty_vec();
        while let Some(x) = iter.next() {
            match x {
                Some(x) => push_vec(&mut v, x),
                None => return None,
            }
        }
        Some(v)
    }
    pub fn map_insert<K, V>(m: &mut HashMap<K, V>, k: K, v: V) {
        loop {}
    }
    pub fn empty_map<K, V>() -> HashMap<K, V> {
        loop {}
    }
    pub fn collect_map<K, V, I: IntoIterator<Item = (K, V)>>(iter: I) -> HashMap<K, V> {
        let mut iter = iter.into_iter();
        let mut m = empty_map();
        while let Some((k, v)) = iter.next() {
            map_insert(&mut m, k, v);
        }
        m
    }
    pub fn extend_map<K, V, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V>, iter: I) {
        let mut iter = iter.into_iter();
        while let Some((k, v)) = iter.next() {
            map_insert(m, k, v);
        }
    }
    pub fn collect_set<K, I: IntoIterator<Item = K>>(iter: I) -> HashMap<K, ()> {
        let mut iter = iter.into_iter();
        let mut m = empty_map();
        while let Some(k) = iter.next() {
            map_insert(&mut m, k, ());
        }
        m
    }
    pub fn extend_set<K, I: IntoIterator<Item = K>>(m: &mut HashMap<K, ()>, iter: I) {
        let mut iter = iter.into_iter();
        while let Some(k) = iter.next() {
            map_insert(m, k, ());
        }
    }
    /// arr.map(f), slice sort_by(f), retain(f), ...: the closure sees any of the elements
    pub fn offer_each<T, B, F: FnMut(&T) -> B>(s: &[T], mut f: F) {
        let mut it = slice_iter(s);
        while let Some(x) = it.next() {
            f(x);
        }
    }
    pub fn offer_pairs<T, B, F: FnMut(&T, &T) -> B>(s: &[T], mut f: F) {
        let mut it = slice_iter(s);
        while let Some(x) = it.next() {
            let y = any_elem(s);
            f(x, y);
        }
    }
    pub fn any_elem<T>(s: &[T]) -> &T {
        loop {}
    }
    pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let mut out = empty_vec();
        let old = std::mem::replace(v, empty_vec());
        let mut it = val_iter(old);
        while let Some(x) = it.next() {
            if f(&x) {
                push_vec(&mut out, x);
            }
        }
        *v = out;
    }
    pub fn arr_map<T, U, F: FnMut(T) -> U>(s: Vec<T>, mut f: F) -> Vec<U> {
        let mut out = empty_vec();
        let mut it = val_iter(s);
        while let Some(x) = it.next() {
            push_vec(&mut out, f(x));
        }
        out
    }

    // ---- map entries
    pub fn entry_and_modify<'a, K, V, F: FnOnce(&mut V)>(
        e: std::collections::hash_map::Entry<'a, K, V>,
        f: F,
    ) -> std::collections::hash_map::Entry<'a, K, V> {
        match e {
            std::collections::hash_map::Entry::Occupied(mut o) => {
                f(o.get_mut());
                std::collections::hash_map::Entry::Occupied(o)
            }
            std::collections::hash_map::Entry::Vacant(v) => std::collections::hash_map::Entry::Vacant(v),
        }
    }
    pub fn entry_or_insert<'a, K, V>(e: std::collections::hash_map::Entry<'a, K, V>, d: V) -> &'a mut V {
        match e {
            std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
            std::collections::hash_map::Entry::Vacant(v) => v.insert(d),
        }
    }
    pub fn entry_or_insert_with<'a, K, V, F: FnOnce() -> V>(e: std::collections::hash_map::Entry<'a, K, V>, f: F) -> &'a mut V {
        match e {
            std::collections::hash_map::Entry::Occupied(o) => o.into_mut(),
            std::collections::hash_map::Entry::Vacant(v) => v.insert(f()),
        }
    }
}
