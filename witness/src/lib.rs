//! Instantiations of the library's generic code, compiled (never run) so that their MIR can be analysed.
#![allow(dead_code, unused)]
use oxyroot::{
    Marshaler, ReadFromTree, RootFile, SizedSlice, Slice, Unmarshaler, UnmarshalerInto, WriteToTree, WriterTree,
};
use std::collections::{HashMap, HashSet};
use std::hint::black_box;

macro_rules! rw {
    ($($t:ty),* $(,)?) => { $(
        black_box(<$t as Marshaler>::marshal as fn(_, _) -> _);
        black_box(<$t as Marshaler>::kind as fn() -> _);
        black_box(<$t as Marshaler>::root_code as fn() -> _);
        ro!($t);
    )* };
}
macro_rules! wn {
    ($($t:ty),* $(,)?) => { $(
        black_box(<$t as Marshaler>::class_name as fn() -> _);
    )* };
}
macro_rules! ro {
    ($($t:ty),* $(,)?) => { $(
        black_box(<$t as Unmarshaler>::unmarshal as fn(_, _) -> _);
        black_box(<$t as Unmarshaler>::class_name as fn() -> _);
    )* };
}

pub fn containers() {
    rw!(bool, u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, String);
    wn!(bool, u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, Vec<i32>);
    rw!(Vec<i32>, Vec<f64>, Vec<u8>, Vec<Vec<i16>>);
    rw!([i32; 3], [f64; 7]);
    ro!(HashSet<i32>, HashMap<i32, f64>, Slice<i16>, SizedSlice<f32>);
}

macro_rules! branches {
    ($tree:ident, $($n:literal : $t:ty),* $(,)?) => { $( $tree.new_branch($n, std::iter::empty::<$t>()); )* };
}

/// every type the library accepts as a branch element
pub fn writes(tree: &mut WriterTree, f: &mut RootFile) {
    branches!(tree, "bool": bool, "u8": u8, "i8": i8, "u16": u16, "i16": i16, "u32": u32, "i32": i32, "u64": u64,
        "i64": i64, "f32": f32, "f64": f64, "string": String, "a3": [i32; 3], "v": Vec<i32>);
    branches!(tree, "a4": [u8; 4], "a5": [u64; 5], "b2": [bool; 2], "s6": [i16; 6], "vb": Vec<u8>, "vd": Vec<f64>);
    tree.write(f).unwrap();
}

macro_rules! iters {
    ($b:ident, $($t:ty),* $(,)?) => { $( black_box($b.as_iter::<$t>().is_ok()); )* };
}

/// every kind of type a branch is read as
pub fn reads(b: &oxyroot::Branch) {
    iters!(b, bool, u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, String, [i32; 3], [u8; 4], [u64; 5], [bool; 2], [i16; 6],
        Vec<i32>, Vec<u8>, Vec<f64>, Vec<Vec<i16>>, Slice<i16>, Slice<f64>, HashSet<i32>);
}

/// the generic entry points of the file API
pub fn files() {
    let mut f = RootFile::create("a").unwrap();
    f.close().unwrap();
    let g = RootFile::open("a").unwrap();
    black_box(g.keys());
}

#[derive(ReadFromTree)]
pub struct Inner {
    pub x: i32,
    pub y: f64,
}

#[derive(ReadFromTree)]
pub struct Outer {
    pub first: i16,
    pub vec: Vec<f32>,
    pub name: String,
    pub inner: Inner,
    pub last: u8,
}

#[derive(WriteToTree)]
pub struct WInner {
    pub x: i32,
    pub y: f64,
}

#[derive(WriteToTree)]
pub struct WOuter {
    pub first: i16,
    pub name: String,
    pub inner: WInner,
    pub last: u8,
}

#[derive(ReadFromTree)]
#[oxyroot(branch_prefix = "pre_")]
pub struct Prefixed {
    pub a: i32,
    #[oxyroot(rename = "named")]
    pub s: String,
    #[oxyroot(absolute_name = "elsewhere")]
    pub abs: f64,
    pub inner: Inner,
}

#[derive(ReadFromTree)]
pub struct Attributes {
    #[oxyroot(rename = "b")]
    pub a: i32,
    pub b: u8,
    #[oxyroot(branch_prefix = "loc_")]
    pub l: Vec<f64>,
    #[oxyroot(branch_prefix = "q.", rename = "m")]
    pub both: i16,
    #[oxyroot(absolute_name = "top.z")]
    pub z: u32,
    #[oxyroot(rename = "in")]
    pub renamed: Inner,
    #[oxyroot(absolute_name = "root")]
    pub abs: Inner,
    pub mid: Prefixed,
    pub out: Outer,
}

#[derive(ReadFromTree)]
pub struct Deeper {
    pub at: Attributes,
    pub n: u64,
}

#[derive(ReadFromTree)]
#[oxyroot(slicable)]
pub struct Point {
    pub x: i32,
    #[oxyroot(rename = "why")]
    pub y: f64,
    #[oxyroot(absolute_name = "weight")]
    pub w: i16,
}

#[derive(ReadFromTree)]
pub struct Points {
    pub n: i32,
    #[oxyroot(slicable = "Point")]
    pub points: Vec<Point>,
    #[oxyroot(slicable = "Point", rename = "more")]
    pub rest: Vec<Point>,
    pub last: u16,
}

#[derive(WriteToTree)]
pub struct WDeeper {
    pub inner: WInner,
    pub list: Vec<i32>,
    pub at: WOuter,
    pub flag: bool,
    pub other: WInner,
}

pub fn derived_read(tree: &oxyroot::ReaderTree) {
    for x in Outer::from_tree(tree).unwrap() {
        black_box(x);
    }
    for x in Inner::from_tree(tree).unwrap() {
        black_box(x);
    }
    for x in Deeper::from_tree(tree).unwrap() {
        black_box(x);
    }
    for x in Points::from_tree(tree).unwrap() {
        black_box(x);
    }
}

pub fn derived_write(tree: &mut WriterTree) {
    WOuter::to_tree(std::iter::empty::<WOuter>(), tree).unwrap();
    WInner::to_tree(std::iter::empty::<WInner>(), tree).unwrap();
    WDeeper::to_tree(std::iter::empty::<WDeeper>(), tree).unwrap();
}
