//! Definitions, by plain loops, of the iterator methods that take a closure: the analysis reads these instead of the bodies in core.
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, b: B, mut f: F) -> B {
    let mut acc = b;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_x) = it.next() {
        n += 1;
    }
    n
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn collect_map<I: Iterator, T, F: FnMut(I::Item) -> T>(mut it: I, mut f: F) -> Vec<T> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        out.push(f(x));
    }
    out
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        out.push(x);
    }
    out
}
pub fn collect_result_map<I: Iterator, T, Er, F: FnMut(I::Item) -> Result<T, Er>>(mut it: I, mut f: F) -> Result<Vec<T>, Er> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match f(x) {
            Ok(y) => out.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(out)
}
pub fn collect_option_map<I: Iterator, T, F: FnMut(I::Item) -> Option<T>>(mut it: I, mut f: F) -> Option<Vec<T>> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match f(x) {
            Some(y) => out.push(y),
            None => return None,
        }
    }
    Some(out)
}
// Lazy adapters: a value of the iterator type is one of these structs, and the step is the function below it.
pub struct MapIt<I, F> {
    pub i: I,
    pub f: F,
}
pub fn next_map<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut MapIt<I, F>) -> Option<B> {
    match s.i.next() {
        Some(x) => Some((s.f)(x)),
        None => None,
    }
}
pub fn back_map<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B>(s: &mut MapIt<I, F>) -> Option<B> {
    match s.i.next_back() {
        Some(x) => Some((s.f)(x)),
        None => None,
    }
}
pub struct FilterIt<I, F> {
    pub i: I,
    pub f: F,
}
pub fn next_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut FilterIt<I, F>) -> Option<I::Item> {
    while let Some(x) = s.i.next() {
        if (s.f)(&x) {
            return Some(x);
        }
    }
    None
}
pub fn back_filter<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(s: &mut FilterIt<I, F>) -> Option<I::Item> {
    while let Some(x) = s.i.next_back() {
        if (s.f)(&x) {
            return Some(x);
        }
    }
    None
}
pub struct FilterMapIt<I, F> {
    pub i: I,
    pub f: F,
}
pub fn next_filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMapIt<I, F>) -> Option<B> {
    while let Some(x) = s.i.next() {
        if let Some(y) = (s.f)(x) {
            return Some(y);
        }
    }
    None
}
pub struct InspectIt<I, F> {
    pub i: I,
    pub f: F,
}
pub fn next_inspect<I: Iterator, F: FnMut(&I::Item)>(s: &mut InspectIt<I, F>) -> Option<I::Item> {
    match s.i.next() {
        Some(x) => {
            (s.f)(&x);
            Some(x)
        }
        None => None,
    }
}
pub struct TakeWhileIt<I, F> {
    pub i: I,
    pub done: bool,
    pub f: F,
}
pub fn next_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut TakeWhileIt<I, F>) -> Option<I::Item> {
    if s.done {
        return None;
    }
    match s.i.next() {
        Some(x) => {
            if (s.f)(&x) {
                Some(x)
            } else {
                s.done = true;
                None
            }
        }
        None => None,
    }
}
pub struct MapWhileIt<I, F> {
    pub i: I,
    pub f: F,
}
pub fn next_map_while<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut MapWhileIt<I, F>) -> Option<B> {
    match s.i.next() {
        Some(x) => (s.f)(x),
        None => None,
    }
}
pub struct SkipWhileIt<I, F> {
    pub i: I,
    pub done: bool,
    pub f: F,
}
pub fn next_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut SkipWhileIt<I, F>) -> Option<I::Item> {
    if s.done {
        return s.i.next();
    }
    while let Some(x) = s.i.next() {
        if !(s.f)(&x) {
            s.done = true;
            return Some(x);
        }
    }
    None
}
pub struct SkipIt<I> {
    pub i: I,
    pub n: usize,
}
pub fn next_skip<I: Iterator>(s: &mut SkipIt<I>) -> Option<I::Item> {
    while s.n > 0 {
        s.n -= 1;
        if s.i.next().is_none() {
            return None;
        }
    }
    s.i.next()
}
pub struct TakeIt<I> {
    pub i: I,
    pub n: usize,
}
pub fn next_take<I: Iterator>(s: &mut TakeIt<I>) -> Option<I::Item> {
    if s.n == 0 {
        return None;
    }
    s.n -= 1;
    s.i.next()
}
pub struct StepIt<I> {
    pub i: I,
    pub skip: usize,
    pub first: bool,
}
pub fn next_step<I: Iterator>(s: &mut StepIt<I>) -> Option<I::Item> {
    if s.first {
        s.first = false;
        return s.i.next();
    }
    let mut k = s.skip;
    while k > 0 {
        k -= 1;
        if s.i.next().is_none() {
            return None;
        }
    }
    s.i.next()
}
pub struct ZipIt<A, B> {
    pub a: A,
    pub b: B,
}
pub fn next_zip<A: Iterator, B: Iterator>(s: &mut ZipIt<A, B>) -> Option<(A::Item, B::Item)> {
    match s.a.next() {
        Some(x) => match s.b.next() {
            Some(y) => Some((x, y)),
            None => None,
        },
        None => None,
    }
}
pub struct ChainIt<A, B> {
    pub a: A,
    pub b: B,
    pub over: bool,
    pub back_over: bool,
}
pub fn next_chain<A: Iterator, B: Iterator<Item = A::Item>>(s: &mut ChainIt<A, B>) -> Option<A::Item> {
    if !s.over {
        if let Some(x) = s.a.next() {
            return Some(x);
        }
        s.over = true;
    }
    s.b.next()
}
pub fn back_chain<A: DoubleEndedIterator, B: DoubleEndedIterator<Item = A::Item>>(s: &mut ChainIt<A, B>) -> Option<A::Item> {
    if !s.back_over {
        if let Some(x) = s.b.next_back() {
            return Some(x);
        }
        s.back_over = true;
    }
    s.a.next_back()
}
pub struct EnumIt<I> {
    pub i: I,
    pub n: usize,
}
pub fn next_enum<I: Iterator>(s: &mut EnumIt<I>) -> Option<(usize, I::Item)> {
    match s.i.next() {
        Some(x) => {
            let n = s.n;
            s.n = n + 1;
            Some((n, x))
        }
        None => None,
    }
}
pub struct RevIt<I> {
    pub i: I,
}
pub fn next_rev<I: DoubleEndedIterator>(s: &mut RevIt<I>) -> Option<I::Item> {
    s.i.next_back()
}
pub fn back_rev<I: DoubleEndedIterator>(s: &mut RevIt<I>) -> Option<I::Item> {
    s.i.next()
}
pub struct CopiedIt<I> {
    pub i: I,
}
pub fn next_copied<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(s: &mut CopiedIt<I>) -> Option<T> {
    match s.i.next() {
        Some(x) => Some(x.clone()),
        None => None,
    }
}
pub fn back_copied<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>>(s: &mut CopiedIt<I>) -> Option<T> {
    match s.i.next_back() {
        Some(x) => Some(x.clone()),
        None => None,
    }
}
pub struct PeekIt<I: Iterator> {
    pub i: I,
    pub p: Option<Option<I::Item>>,
}
pub fn next_peek<I: Iterator>(s: &mut PeekIt<I>) -> Option<I::Item> {
    match s.p.take() {
        Some(x) => x,
        None => s.i.next(),
    }
}
pub fn peek_peek<I: Iterator>(s: &mut PeekIt<I>) -> Option<&I::Item> {
    if s.p.is_none() {
        s.p = Some(s.i.next());
    }
    match &s.p {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}
pub fn peek_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(s: &mut PeekIt<I>, f: F) -> Option<I::Item> {
    match next_peek(s) {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                s.p = Some(Some(x));
                None
            }
        }
        None => {
            s.p = Some(None);
            None
        }
    }
}
pub struct WindowsIt<'a, T> {
    pub s: &'a [T],
    pub n: usize,
}
pub fn next_windows<'a, T>(s: &mut WindowsIt<'a, T>) -> Option<&'a [T]> {
    if s.s.len() < s.n {
        return None;
    }
    let x = &s.s[..s.n];
    s.s = &s.s[1..];
    Some(x)
}
pub fn back_windows<'a, T>(s: &mut WindowsIt<'a, T>) -> Option<&'a [T]> {
    let l = s.s.len();
    if l < s.n {
        return None;
    }
    let x = &s.s[l - s.n..];
    s.s = &s.s[..l - 1];
    Some(x)
}
pub struct ChunksIt<'a, T> {
    pub s: &'a [T],
    pub n: usize,
}
pub fn next_chunks<'a, T>(s: &mut ChunksIt<'a, T>) -> Option<&'a [T]> {
    if s.s.is_empty() {
        return None;
    }
    let k = if s.s.len() < s.n { s.s.len() } else { s.n };
    let x = &s.s[..k];
    s.s = &s.s[k..];
    Some(x)
}
pub struct ExactIt<'a, T> {
    pub s: &'a [T],
    pub n: usize,
}
pub fn next_exact<'a, T>(s: &mut ExactIt<'a, T>) -> Option<&'a [T]> {
    if s.s.len() < s.n {
        return None;
    }
    let x = &s.s[..s.n];
    s.s = &s.s[s.n..];
    Some(x)
}
pub fn exact_remainder<'a, T>(s: &ExactIt<'a, T>) -> &'a [T] {
    let mut r = s.s;
    while r.len() >= s.n {
        r = &r[s.n..];
    }
    r
}
pub struct SplitIt<'a, T, F> {
    pub s: &'a [T],
    pub f: F,
    pub done: bool,
}
pub fn next_split<'a, T, F: FnMut(&T) -> bool>(s: &mut SplitIt<'a, T, F>) -> Option<&'a [T]> {
    if s.done {
        return None;
    }
    let mut i = 0;
    while i < s.s.len() {
        if (s.f)(&s.s[i]) {
            let x = &s.s[..i];
            s.s = &s.s[i + 1..];
            return Some(x);
        }
        i += 1;
    }
    s.done = true;
    Some(s.s)
}
pub struct FromFnIt<F> {
    pub f: F,
}
pub fn next_from_fn<T, F: FnMut() -> Option<T>>(s: &mut FromFnIt<F>) -> Option<T> {
    (s.f)()
}
pub struct SuccIt<T, F> {
    pub n: Option<T>,
    pub f: F,
}
pub fn next_succ<T, F: FnMut(&T) -> Option<T>>(s: &mut SuccIt<T, F>) -> Option<T> {
    match s.n.take() {
        Some(x) => {
            s.n = (s.f)(&x);
            Some(x)
        }
        None => None,
    }
}
pub struct OnceIt<T> {
    pub x: Option<T>,
}
pub fn next_once<T>(s: &mut OnceIt<T>) -> Option<T> {
    s.x.take()
}
pub fn back_once<T>(s: &mut OnceIt<T>) -> Option<T> {
    s.x.take()
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn iter_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 {
        n -= 1;
        if it.next().is_none() {
            return None;
        }
    }
    it.next()
}
pub fn iter_rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = it.len();
    while let Some(x) = it.next_back() {
        n -= 1;
        if f(x) {
            return Some(n);
        }
    }
    None
}
pub fn iter_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_max_min<I: Iterator<Item = usize>>(mut it: I, max: bool) -> Option<usize> {
    let mut m = match it.next() {
        Some(x) => x,
        None => return None,
    };
    while let Some(x) = it.next() {
        if (max && x >= m) || (!max && x < m) {
            m = x;
        }
    }
    Some(m)
}
pub fn iter_sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(x) = it.next() {
        n += x;
    }
    n
}
pub fn try_fold_result<I: Iterator, B, Er, F: FnMut(B, I::Item) -> Result<B, Er>>(it: &mut I, b: B, mut f: F) -> Result<B, Er> {
    let mut acc = b;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(y) => acc = y,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, b: B, mut f: F) -> Option<B> {
    let mut acc = b;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Some(y) => acc = y,
            None => return None,
        }
    }
    Some(acc)
}
pub fn try_each_result<I: Iterator, Er, F: FnMut(I::Item) -> Result<(), Er>>(it: &mut I, mut f: F) -> Result<(), Er> {
    while let Some(x) = it.next() {
        if let Err(e) = f(x) {
            return Err(e);
        }
    }
    Ok(())
}
pub fn try_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.next() {
        if f(x).is_none() {
            return None;
        }
    }
    Some(())
}
pub fn iter_eq<A: Iterator, B: Iterator>(mut a: A, mut b: B) -> bool
where
    A::Item: PartialEq<B::Item>,
{
    loop {
        match a.next() {
            None => return b.next().is_none(),
            Some(x) => match b.next() {
                None => return false,
                Some(y) => {
                    if x != y {
                        return false;
                    }
                }
            },
        }
    }
}
pub fn collect_chars<I: Iterator<Item = char>>(mut it: I) -> String {
    let mut out = String::new();
    while let Some(x) = it.next() {
        out.push(x);
    }
    out
}
pub fn collect_strs<'a, I: Iterator<Item = &'a str>>(mut it: I) -> String {
    let mut out = String::new();
    while let Some(x) = it.next() {
        out.push_str(x);
    }
    out
}
pub fn collect_result<I: Iterator<Item = Result<T, Er>>, T, Er>(mut it: I) -> Result<Vec<T>, Er> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => out.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(out)
}
pub fn collect_option<I: Iterator<Item = Option<T>>, T>(mut it: I) -> Option<Vec<T>> {
    let mut out = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => out.push(y),
            None => return None,
        }
    }
    Some(out)
}
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn extend_chars<I: Iterator<Item = char>>(v: &mut String, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn extend_strs<'a, I: Iterator<Item = &'a str>>(v: &mut String, mut it: I) {
    while let Some(x) = it.next() {
        v.push_str(x);
    }
}
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}

// ---------------------------------------------------------------- more of Vec and slices
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn vec_dedup_by_key<T, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let a = f(&mut v[i - 1]);
        let b = f(&mut v[i]);
        if a == b {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn slice_reverse<T>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        let x = v.remove(i);
        v.insert(0, x);
        i += 1;
    }
}
pub fn slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j - 1], &v[j]) == std::cmp::Ordering::Greater {
            let x = v.remove(j);
            j -= 1;
            v.insert(j, x);
        }
        i += 1;
    }
}
pub fn slice_sort_by_key<T, K: PartialOrd, F: FnMut(&T) -> K>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && f(&v[j - 1]) > f(&v[j]) {
            let x = v.remove(j);
            j -= 1;
            v.insert(j, x);
        }
        i += 1;
    }
}
pub fn slice_sort<T: PartialOrd>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        let mut j = i;
        while j > 0 && v[j - 1] > v[j] {
            let x = v.remove(j);
            j -= 1;
            v.insert(j, x);
        }
        i += 1;
    }
}
pub fn vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) {
    while v.len() < n {
        v.push(x.clone());
    }
    v.truncate(n);
}
pub fn slice_first_mut<T>(v: &mut Vec<T>) -> Option<&mut T> {
    v.get_mut(0)
}
pub fn slice_last_mut<T>(v: &mut Vec<T>) -> Option<&mut T> {
    let n = v.len();
    if n == 0 {
        None
    } else {
        v.get_mut(n - 1)
    }
}
pub fn slice_is_ascii(v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() {
        if v[i] >= 128 {
            return false;
        }
        i += 1;
    }
    true
}
pub fn trim_start_bytes(v: &[u8]) -> &[u8] {
    let mut r = v;
    while !r.is_empty() && r[0].is_ascii_whitespace() {
        r = &r[1..];
    }
    r
}
pub fn trim_end_bytes(v: &[u8]) -> &[u8] {
    let mut r = v;
    while !r.is_empty() && r[r.len() - 1].is_ascii_whitespace() {
        r = &r[..r.len() - 1];
    }
    r
}
pub fn trim_bytes(v: &[u8]) -> &[u8] {
    trim_end_bytes(trim_start_bytes(v))
}

// ---------------------------------------------------------------- more of str
pub fn str_starts_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool {
    match s.chars().next() {
        Some(c) => f(c),
        None => false,
    }
}
pub fn str_ends_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool {
    match s.chars().next_back() {
        Some(c) => f(c),
        None => false,
    }
}
pub fn str_find_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
    let mut it = s.chars();
    loop {
        let left = it.as_str().len();
        match it.next() {
            Some(c) if f(c) => return Some(s.len() - left),
            Some(_) => (),
            None => return None,
        }
    }
}
pub fn str_rfind_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> {
    let mut it = s.chars();
    while let Some(c) = it.next_back() {
        if f(c) {
            return Some(it.as_str().len());
        }
    }
    None
}
pub fn str_find_byte(s: &[u8], b: u8) -> Option<usize> {
    let mut i = 0;
    while i < s.len() {
        if s[i] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn str_rfind_byte(s: &[u8], b: u8) -> Option<usize> {
    let mut i = s.len();
    while i > 0 {
        i -= 1;
        if s[i] == b {
            return Some(i);
        }
    }
    None
}
pub fn str_find_str(s: &[u8], p: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + p.len() <= s.len() {
        if s[i..].starts_with(p) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn str_rfind_str(s: &[u8], p: &[u8]) -> Option<usize> {
    if p.len() > s.len() {
        return None;
    }
    let mut i = s.len() - p.len();
    loop {
        if s[i..].starts_with(p) {
            return Some(i);
        }
        if i == 0 {
            return None;
        }
        i -= 1;
    }
}
pub fn str_has_fn<F: FnMut(char) -> bool>(s: &str, f: F) -> bool {
    str_find_fn(s, f).is_some()
}
pub fn str_has_byte(s: &[u8], b: u8) -> bool {
    str_find_byte(s, b).is_some()
}
pub fn str_has_str(s: &[u8], p: &[u8]) -> bool {
    str_find_str(s, p).is_some()
}
pub fn str_once_byte(s: &[u8], b: u8) -> Option<(&[u8], &[u8])> {
    let i = str_find_byte(s, b)?;
    Some((&s[..i], &s[i + 1..]))
}
pub fn str_once_str<'a>(s: &'a [u8], p: &[u8]) -> Option<(&'a [u8], &'a [u8])> {
    let i = str_find_str(s, p)?;
    Some((&s[..i], &s[i + p.len()..]))
}
pub fn str_ronce_byte(s: &[u8], b: u8) -> Option<(&[u8], &[u8])> {
    let i = str_rfind_byte(s, b)?;
    Some((&s[..i], &s[i + 1..]))
}
pub fn str_once_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<(&str, &str)> {
    let mut it = s.chars();
    loop {
        let left = it.as_str().len();
        match it.next() {
            Some(c) if f(c) => return Some((&s[..s.len() - left], it.as_str())),
            Some(_) => (),
            None => return None,
        }
    }
}
pub fn trim_start_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
    let mut it = s.chars();
    loop {
        let left = it.as_str();
        match it.next() {
            Some(c) if f(c) => (),
            _ => return left,
        }
    }
}
pub fn trim_end_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
    let mut it = s.chars();
    loop {
        let left = it.as_str();
        match it.next_back() {
            Some(c) if f(c) => (),
            _ => return left,
        }
    }
}
pub fn trim_start_byte(s: &[u8], b: u8) -> &[u8] {
    let mut r = s;
    while !r.is_empty() && r[0] == b {
        r = &r[1..];
    }
    r
}
pub fn trim_end_byte(s: &[u8], b: u8) -> &[u8] {
    let mut r = s;
    while !r.is_empty() && r[r.len() - 1] == b {
        r = &r[..r.len() - 1];
    }
    r
}
pub fn trim_both_byte(s: &[u8], b: u8) -> &[u8] {
    trim_end_byte(trim_start_byte(s, b), b)
}
pub fn trim_both_fn<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str {
    let r = trim_start_fn(s, &mut f);
    trim_end_fn(r, &mut f)
}
pub fn str_trim_start(s: &str) -> &str {
    trim_start_fn(s, |c| c.is_whitespace())
}
pub fn str_trim_end(s: &str) -> &str {
    trim_end_fn(s, |c| c.is_whitespace())
}
pub fn str_trim(s: &str) -> &str {
    str_trim_end(str_trim_start(s))
}
pub fn str_replace_str(s: &str, p: &str, q: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        if s.as_bytes()[i..].starts_with(p.as_bytes()) {
            out.push_str(q);
            i += p.len();
        } else {
            out.push_str(&s[i..i + 1]);
            i += 1;
        }
    }
    out
}
pub fn str_replace_byte(s: &str, b: u8, q: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        if s.as_bytes()[i] == b {
            out.push_str(q);
        } else {
            out.push_str(&s[i..i + 1]);
        }
        i += 1;
    }
    out
}
pub fn str_split_byte(s: &[u8], b: u8) -> SplitIt<'_, u8, impl FnMut(&u8) -> bool> {
    SplitIt { s, f: move |c: &u8| *c == b, done: false }
}

pub fn bytes_contain(s: &[u8], x: u8) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] == x {
            return true;
        }
        i += 1;
    }
    false
}
pub fn opt_deref_vec<T>(o: &Option<Vec<T>>) -> Option<&[T]> {
    match o {
        Some(v) => Some(&v[..]),
        None => None,
    }
}
pub fn opt_deref_string(o: &Option<String>) -> Option<&str> {
    match o {
        Some(v) => Some(v.as_str()),
        None => None,
    }
}
