// Analysis prelude: stand-ins whose bodies the analysis never runs (v_*), and loop versions of iterator adapters
// (vmodel_*) that it analyses in place of their unsafe std implementations.
#[allow(unused, clippy::all)]
pub mod v {
    use std::io::{Read, Write};
    use yaserde::de::Deserializer;
    use yaserde::ser::Serializer;
    pub struct Sink;
    impl Write for Sink {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { loop {} }
        fn flush(&mut self) -> std::io::Result<()> { loop {} }
    }
    pub struct Src;
    impl Read for Src {
        fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { loop {} }
    }
    pub struct Mark;
    pub struct Tok;
    pub fn v_any<T>() -> T { loop {} }
    pub fn v_src() -> Src { loop {} }
    pub fn v_sink() -> Sink { loop {} }
    pub fn v_new<B>() -> B { loop {} }
    pub fn v_push<B, A>(_b: &mut B, _a: A) { loop {} }
    pub fn v_mark<T>(_: &T) -> Mark { loop {} }
    pub fn v_generalize<T>(_: &mut T, _: &Mark) { loop {} }
    pub fn v_returned() { loop {} }
    pub fn v_begin() { loop {} }
    pub fn v_pending() { loop {} }
    pub fn v_saw<T>(_: &T) { loop {} }
    pub fn v_top<T>(_: &mut T) { loop {} }
    pub fn v_subtree<T, R: Read>(_: &mut Deserializer<R>) -> Tok { loop {} }
    pub fn v_result<T>(_: Tok) -> Result<T, String> { loop {} }
    pub fn v_emit_ser<T, W: Write>(_: &T, _: Option<String>, _: bool, _: &mut Serializer<W>) -> Result<(), String> { loop {} }

    /// a cursor inside a document, at an unknown depth >= 1, positioned before a start tag
    pub fn nested_cursor() -> Result<Deserializer<Src>, String> {
        let mut r = Deserializer::new_from_reader(v_src());
        let m = v_mark(&r);
        r.next_event()?;
        v_generalize(&mut r, &m);
        r.peek()?;
        Ok(r)
    }
    pub fn serializer(name: Option<String>, skip: bool) -> Serializer<Sink> {
        let mut w = Serializer::new_for_inner(v_sink());
        w.set_start_event_name(name);
        w.set_skip_start_end(skip);
        w
    }

    pub fn vmodel_nested_de<T, R: Read>(r: &mut Deserializer<R>) -> Result<T, String> {
        r.next_event()?;
        let t = v_subtree::<T, R>(r);
        r.peek()?;
        v_result::<T>(t)
    }
    pub fn vmodel_nested_ser<T, W: Write>(x: &T, w: &mut Serializer<W>) -> Result<(), String> {
        let n = w.get_start_event_name();
        let s = w.skip_start_end();
        w.set_start_event_name(v_any());
        w.set_skip_start_end(v_any());
        v_emit_ser::<T, W>(x, n, s, w)
    }
    pub fn vmodel_from_iter<B, A, I: IntoIterator<Item = A>>(it: I) -> B {
        let mut b = v_new::<B>();
        for x in it { v_push::<B, A>(&mut b, x); }
        b
    }
    pub fn vmodel_collect<I: Iterator, B: FromIterator<I::Item>>(it: I) -> B { B::from_iter(it) }
    pub fn vmodel_extend<B, A, I: IntoIterator<Item = A>>(b: &mut B, it: I) {
        for x in it { v_push::<B, A>(b, x); }
    }
    pub fn vmodel_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
        while let Some(x) = it.next() { if p(&x) { return Some(x); } }
        None
    }
    pub fn vmodel_any<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> bool {
        while let Some(x) = it.next() { if p(x) { return true; } }
        false
    }
    pub fn vmodel_all<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> bool {
        while let Some(x) = it.next() { if !p(x) { return false; } }
        true
    }
    pub fn vmodel_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; }
        None
    }
    pub fn vmodel_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
        None
    }
    pub fn vmodel_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
        while let Some(x) = it.next() { f(x); }
    }
    pub fn vmodel_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = it.next() { acc = f(acc, x); }
        acc
    }
    pub fn vmodel_last<I: Iterator>(mut it: I) -> Option<I::Item> {
        let mut l = None;
        while let Some(x) = it.next() { l = Some(x); }
        l
    }
}
