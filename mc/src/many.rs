//! The macros written out with many arguments.
use json::{Error, Finder, Json, Path};

pub const SIZES: &[usize] = &[6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 40, 63, 64, 65];

pub fn path(n: usize, f: &mut dyn FnMut(usize) -> Finder) -> Path {
    match n {
        6 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5)),
        7 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6),),
        8 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)),
        9 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8),),
        10 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)),
        11 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10),),
        12 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)),
        13 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12),),
        14 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13)),
        15 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14),),
        16 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)),
        17 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16),),
        18 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17)),
        19 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18),),
        20 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)),
        31 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30),),
        32 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)),
        33 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32),),
        40 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39)),
        63 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62),),
        64 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63)),
        65 => json::path!(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63), f(64),),
        _ => unreachable!(),
    }
}
pub fn find<'a>(n: usize, j: &'a Json, f: &mut dyn FnMut(usize) -> Finder) -> Result<&'a Json, Error> {
    match n {
        6 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5)),
        7 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6),),
        8 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)),
        9 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8),),
        10 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)),
        11 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10),),
        12 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)),
        13 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12),),
        14 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13)),
        15 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14),),
        16 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)),
        17 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16),),
        18 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17)),
        19 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18),),
        20 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)),
        31 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30),),
        32 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)),
        33 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32),),
        40 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39)),
        63 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62),),
        64 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63)),
        65 => json::find!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63), f(64),),
        _ => unreachable!(),
    }
}
pub fn update<'a>(n: usize, j: &'a mut Json, v: Json, f: &mut dyn FnMut(usize) -> Finder) -> Result<&'a mut Json, Error> {
    match n {
        6 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5)),
        7 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6),),
        8 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)),
        9 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8),),
        10 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)),
        11 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10),),
        12 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)),
        13 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12),),
        14 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13)),
        15 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14),),
        16 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)),
        17 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16),),
        18 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17)),
        19 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18),),
        20 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)),
        31 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30),),
        32 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)),
        33 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32),),
        40 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39)),
        63 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62),),
        64 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63)),
        65 => json::update!(v => j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63), f(64),),
        _ => unreachable!(),
    }
}
pub fn discard(n: usize, j: &mut Json, f: &mut dyn FnMut(usize) -> Finder) -> Result<Json, Error> {
    match n {
        6 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5)),
        7 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6),),
        8 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)),
        9 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8),),
        10 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)),
        11 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10),),
        12 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11)),
        13 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12),),
        14 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13)),
        15 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14),),
        16 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)),
        17 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16),),
        18 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17)),
        19 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18),),
        20 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)),
        31 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30),),
        32 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31)),
        33 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32),),
        40 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39)),
        63 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62),),
        64 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63)),
        65 => json::discard!(j, f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19), f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29), f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39), f(40), f(41), f(42), f(43), f(44), f(45), f(46), f(47), f(48), f(49), f(50), f(51), f(52), f(53), f(54), f(55), f(56), f(57), f(58), f(59), f(60), f(61), f(62), f(63), f(64),),
        _ => unreachable!(),
    }
}
pub fn array(n: usize, e: &mut dyn FnMut(usize) -> Json) -> Json {
    match n {
        6 => json::array![e(0), e(1), e(2), e(3), e(4), e(5)],
        7 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6),],
        8 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7)],
        9 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8),],
        10 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9)],
        11 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10),],
        12 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11)],
        13 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12),],
        14 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13)],
        15 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14),],
        16 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15)],
        17 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16),],
        18 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17)],
        19 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18),],
        20 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19)],
        31 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30),],
        32 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31)],
        33 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32),],
        40 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39)],
        63 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56), e(57), e(58), e(59), e(60), e(61), e(62),],
        64 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56), e(57), e(58), e(59), e(60), e(61), e(62), e(63)],
        65 => json::array![e(0), e(1), e(2), e(3), e(4), e(5), e(6), e(7), e(8), e(9), e(10), e(11), e(12), e(13), e(14), e(15), e(16), e(17), e(18), e(19), e(20), e(21), e(22), e(23), e(24), e(25), e(26), e(27), e(28), e(29), e(30), e(31), e(32), e(33), e(34), e(35), e(36), e(37), e(38), e(39), e(40), e(41), e(42), e(43), e(44), e(45), e(46), e(47), e(48), e(49), e(50), e(51), e(52), e(53), e(54), e(55), e(56), e(57), e(58), e(59), e(60), e(61), e(62), e(63), e(64),],
        _ => unreachable!(),
    }
}
pub fn object(n: usize, g: &dyn Fn(usize) -> String, e: &mut dyn FnMut(usize) -> Json) -> Json {
    match n {
        6 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5) },
        7 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), },
        8 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7) },
        9 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), },
        10 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9) },
        11 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), },
        12 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11) },
        13 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), },
        14 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13) },
        15 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), },
        16 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15) },
        17 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), },
        18 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17) },
        19 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), },
        20 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19) },
        31 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), },
        32 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), g(31) => e(31) },
        33 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), g(31) => e(31), g(32) => e(32), },
        40 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), g(31) => e(31), g(32) => e(32), g(33) => e(33), g(34) => e(34), g(35) => e(35), g(36) => e(36), g(37) => e(37), g(38) => e(38), g(39) => e(39) },
        63 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), g(31) => e(31), g(32) => e(32), g(33) => e(33), g(34) => e(34), g(35) => e(35), g(36) => e(36), g(37) => e(37), g(38) => e(38), g(39) => e(39), g(40) => e(40), g(41) => e(41), g(42) => e(42), g(43) => e(43), g(44) => e(44), g(45) => e(45), g(46) => e(46), g(47) => e(47), g(48) => e(48), g(49) => e(49), g(50) => e(50), g(51) => e(51), g(52) => e(52), g(53) => e(53), g(54) => e(54), g(55) => e(55), g(56) => e(56), g(57) => e(57), g(58) => e(58), g(59) => e(59), g(60) => e(60), g(61) => e(61), g(62) => e(62), },
        64 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), g(31) => e(31), g(32) => e(32), g(33) => e(33), g(34) => e(34), g(35) => e(35), g(36) => e(36), g(37) => e(37), g(38) => e(38), g(39) => e(39), g(40) => e(40), g(41) => e(41), g(42) => e(42), g(43) => e(43), g(44) => e(44), g(45) => e(45), g(46) => e(46), g(47) => e(47), g(48) => e(48), g(49) => e(49), g(50) => e(50), g(51) => e(51), g(52) => e(52), g(53) => e(53), g(54) => e(54), g(55) => e(55), g(56) => e(56), g(57) => e(57), g(58) => e(58), g(59) => e(59), g(60) => e(60), g(61) => e(61), g(62) => e(62), g(63) => e(63) },
        65 => json::object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), g(5) => e(5), g(6) => e(6), g(7) => e(7), g(8) => e(8), g(9) => e(9), g(10) => e(10), g(11) => e(11), g(12) => e(12), g(13) => e(13), g(14) => e(14), g(15) => e(15), g(16) => e(16), g(17) => e(17), g(18) => e(18), g(19) => e(19), g(20) => e(20), g(21) => e(21), g(22) => e(22), g(23) => e(23), g(24) => e(24), g(25) => e(25), g(26) => e(26), g(27) => e(27), g(28) => e(28), g(29) => e(29), g(30) => e(30), g(31) => e(31), g(32) => e(32), g(33) => e(33), g(34) => e(34), g(35) => e(35), g(36) => e(36), g(37) => e(37), g(38) => e(38), g(39) => e(39), g(40) => e(40), g(41) => e(41), g(42) => e(42), g(43) => e(43), g(44) => e(44), g(45) => e(45), g(46) => e(46), g(47) => e(47), g(48) => e(48), g(49) => e(49), g(50) => e(50), g(51) => e(51), g(52) => e(52), g(53) => e(53), g(54) => e(54), g(55) => e(55), g(56) => e(56), g(57) => e(57), g(58) => e(58), g(59) => e(59), g(60) => e(60), g(61) => e(61), g(62) => e(62), g(63) => e(63), g(64) => e(64), },
        _ => unreachable!(),
    }
}
