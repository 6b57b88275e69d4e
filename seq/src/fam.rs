//! The two families behind one interface.
use std::ops::{Deref, DerefMut};

pub trait Fam: 'static {
    const NAME: &'static str;
    type S<T: 'static>: Deref<Target = [T]> + Clone;
    type W<T: 'static>: Clone;
    type M<T: 'static>: DerefMut<Target = [T]> + IntoIterator<Item = T, IntoIter = Self::I<T>>;
    type I<T: 'static>: DoubleEndedIterator<Item = T> + ExactSizeIterator;
    type P<T: 'static>: DoubleEndedIterator<Item = Self::S<T>> + ExactSizeIterator + Clone;
    type Q<T: 'static>: DoubleEndedIterator<Item = Self::M<T>> + ExactSizeIterator;

    fn s_from_vec<T: 'static>(v: Vec<T>) -> Self::S<T>;
    fn s_from_box<T: 'static>(v: Box<[T]>) -> Self::S<T>;
    fn s_collect<T: 'static, I: IntoIterator<Item = T>>(i: I) -> Self::S<T>;
    fn m_from_vec<T: 'static>(v: Vec<T>) -> Self::M<T>;
    fn m_from_box<T: 'static>(v: Box<[T]>) -> Self::M<T>;
    fn m_collect<T: 'static, I: IntoIterator<Item = T>>(i: I) -> Self::M<T>;
    fn clone_left<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn clone_right<T: 'static>(s: &Self::S<T>) -> Self::S<T>;
    fn split_left<T: 'static>(s: &mut Self::S<T>) -> Self::S<T>;
    fn split_right<T: 'static>(s: &mut Self::S<T>) -> Self::S<T>;
    fn s_parts<T: 'static>(s: Self::S<T>, n: usize) -> Self::P<T>;
    fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut [T]>;
    fn into_mut<T: 'static>(s: Self::S<T>) -> Result<Self::M<T>, Self::S<T>>;
    fn downgrade<T: 'static>(s: &Self::S<T>) -> Self::W<T>;
    fn w_new<T: 'static>() -> Self::W<T>;
    fn upgrade<T: 'static>(w: &Self::W<T>) -> Option<Self::S<T>>;
    fn m_split_left<T: 'static>(m: &mut Self::M<T>) -> Self::M<T>;
    fn m_split_right<T: 'static>(m: &mut Self::M<T>) -> Self::M<T>;
    fn m_parts<T: 'static>(m: Self::M<T>, n: usize) -> Self::Q<T>;
    fn into_immut<T: 'static>(m: Self::M<T>) -> Self::S<T>;
    fn m_clone<T: Clone + 'static>(m: &Self::M<T>) -> Self::M<T>;
    fn i_slice<T: 'static>(i: &Self::I<T>) -> &[T];
    fn i_slice_mut<T: 'static>(i: &mut Self::I<T>) -> &mut [T];
    fn i_split_from<T: 'static>(i: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn i_split_to<T: 'static>(i: &mut Self::I<T>, at: usize) -> Self::I<T>;
    fn p_slice<T: 'static>(p: &Self::P<T>) -> &[T];
    fn q_slice<T: 'static>(q: &Self::Q<T>) -> &[T];
    fn q_slice_mut<T: 'static>(q: &mut Self::Q<T>) -> &mut [T];
}

macro_rules! fam {
    ($fam:ident, $name:literal, $m:ident, $S:ident, $P:ident, $M:ident, $I:ident, $Q:ident) => {
        pub struct $fam;
        impl Fam for $fam {
            const NAME: &'static str = $name;
            type S<T: 'static> = rc_slice::$S<T>;
            type W<T: 'static> = rc_slice::$m::WeakSlice<T>;
            type M<T: 'static> = rc_slice::$M<T>;
            type I<T: 'static> = rc_slice::$m::$I<T>;
            type P<T: 'static> = rc_slice::$m::$P<T>;
            type Q<T: 'static> = rc_slice::$m::$Q<T>;
            fn s_from_vec<T: 'static>(v: Vec<T>) -> Self::S<T> { rc_slice::$S::from_vec(v) }
            fn s_from_box<T: 'static>(v: Box<[T]>) -> Self::S<T> { rc_slice::$S::from_boxed_slice(v) }
            fn s_collect<T: 'static, I: IntoIterator<Item = T>>(i: I) -> Self::S<T> { i.into_iter().collect() }
            fn m_from_vec<T: 'static>(v: Vec<T>) -> Self::M<T> { rc_slice::$M::from_vec(v) }
            fn m_from_box<T: 'static>(v: Box<[T]>) -> Self::M<T> { rc_slice::$M::from_boxed_slice(v) }
            fn m_collect<T: 'static, I: IntoIterator<Item = T>>(i: I) -> Self::M<T> { i.into_iter().collect() }
            fn clone_left<T: 'static>(s: &Self::S<T>) -> Self::S<T> { rc_slice::$S::clone_left(s) }
            fn clone_right<T: 'static>(s: &Self::S<T>) -> Self::S<T> { rc_slice::$S::clone_right(s) }
            fn split_left<T: 'static>(s: &mut Self::S<T>) -> Self::S<T> { rc_slice::$S::split_off_left(s) }
            fn split_right<T: 'static>(s: &mut Self::S<T>) -> Self::S<T> { rc_slice::$S::split_off_right(s) }
            fn s_parts<T: 'static>(s: Self::S<T>, n: usize) -> Self::P<T> { rc_slice::$S::split_into_parts(s, n) }
            fn get_mut<T: 'static>(s: &mut Self::S<T>) -> Option<&mut [T]> { rc_slice::$S::get_mut(s) }
            fn into_mut<T: 'static>(s: Self::S<T>) -> Result<Self::M<T>, Self::S<T>> { rc_slice::$S::into_mut(s) }
            fn downgrade<T: 'static>(s: &Self::S<T>) -> Self::W<T> { rc_slice::$S::downgrade(s) }
            fn w_new<T: 'static>() -> Self::W<T> { rc_slice::$m::WeakSlice::new() }
            fn upgrade<T: 'static>(w: &Self::W<T>) -> Option<Self::S<T>> { w.upgrade() }
            fn m_split_left<T: 'static>(m: &mut Self::M<T>) -> Self::M<T> { rc_slice::$M::split_off_left(m) }
            fn m_split_right<T: 'static>(m: &mut Self::M<T>) -> Self::M<T> { rc_slice::$M::split_off_right(m) }
            fn m_parts<T: 'static>(m: Self::M<T>, n: usize) -> Self::Q<T> { rc_slice::$M::split_into_parts(m, n) }
            fn into_immut<T: 'static>(m: Self::M<T>) -> Self::S<T> { rc_slice::$M::into_immut(m) }
            fn m_clone<T: Clone + 'static>(m: &Self::M<T>) -> Self::M<T> { m.clone() }
            fn i_slice<T: 'static>(i: &Self::I<T>) -> &[T] { i.as_slice() }
            fn i_slice_mut<T: 'static>(i: &mut Self::I<T>) -> &mut [T] { i.as_mut_slice() }
            fn i_split_from<T: 'static>(i: &mut Self::I<T>, at: usize) -> Self::I<T> { i.split_off_from(at) }
            fn i_split_to<T: 'static>(i: &mut Self::I<T>, at: usize) -> Self::I<T> { i.split_off_to(at) }
            fn p_slice<T: 'static>(p: &Self::P<T>) -> &[T] { p.as_slice() }
            fn q_slice<T: 'static>(q: &Self::Q<T>) -> &[T] { q.as_slice() }
            fn q_slice_mut<T: 'static>(q: &mut Self::Q<T>) -> &mut [T] { q.as_mut_slice() }
        }
    };
}

fam!(RcFam, "rc", rc, RcSlice, RcSliceParts, RcSliceMut, RcSliceMutIter, RcSliceMutParts);
fam!(ArcFam, "arc", arc, ArcSlice, ArcSliceParts, ArcSliceMut, ArcSliceMutIter, ArcSliceMutParts);
