#!/usr/bin/env python3
"""Make a copy of the installed rust-src with the parts of std that a symbolic run must not execute
replaced: the hash function (SipHash over symbolic bytes), its random keys, and printing."""
import os, subprocess, sys, shutil

HASHER = r'''
/// Stand-in hash: byte strings count by their length only, integers by their value. Any function is
/// a legal hash; equality still decides every lookup.
#[derive(Clone, Debug)]
#[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
pub struct DefaultHasher(u64);

impl DefaultHasher {
    #[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
    #[rustc_const_unstable(feature = "const_default", issue = "143894")]
    #[must_use]
    pub const fn new() -> DefaultHasher { DefaultHasher(0) }
}

#[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
impl Default for DefaultHasher {
    fn default() -> DefaultHasher { DefaultHasher::new() }
}

impl DefaultHasher {
    #[inline]
    fn mix(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
}

#[stable(feature = "hashmap_default_hasher", since = "1.13.0")]
impl Hasher for DefaultHasher {
    #[inline]
    fn write(&mut self, msg: &[u8]) { self.mix(msg.len() as u64) }
    #[inline]
    fn write_u8(&mut self, _i: u8) {}
    #[inline]
    fn write_u16(&mut self, i: u16) { self.mix(i as u64) }
    #[inline]
    fn write_u32(&mut self, i: u32) { self.mix(i as u64) }
    #[inline]
    fn write_u64(&mut self, i: u64) { self.mix(i) }
    #[inline]
    fn write_usize(&mut self, i: usize) { self.mix(i as u64) }
    #[inline]
    fn write_i32(&mut self, i: i32) { self.mix(i as u64) }
    #[inline]
    fn write_i64(&mut self, i: i64) { self.mix(i as u64) }
    #[inline]
    fn write_isize(&mut self, i: isize) { self.mix(i as u64) }
    #[inline]
    fn write_length_prefix(&mut self, len: usize) { self.mix(len as u64) }
    #[inline]
    fn write_str(&mut self, s: &str) { self.mix(s.len() as u64) }
    #[inline]
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 32) }
}
'''

def sub(text, a, b):
    if text.count(a) != 1: sys.exit('mkstd: pattern found %d times: %r' % (text.count(a), a[:60]))
    return text.replace(a, b)

def main(dst):
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()
    src = root + '/lib/rustlib/src/rust'
    stamp = dst + '/.stamp'
    me = open(__file__).read()
    if os.path.exists(stamp) and open(stamp).read() == src + me: return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    # copies, so that nothing is ever written through a link into the toolchain
    shutil.copytree(src + '/library', dst + '/library', symlinks=True)
    p = dst + '/library/std/src/hash/random.rs'
    t = open(p).read()
    t = sub(t, 'use super::{BuildHasher, Hasher, SipHasher13};', 'use super::{BuildHasher, Hasher};')
    t = t.replace('use crate::sys::random::hashmap_random_keys;', 'unsafe extern "C" { fn __sym_hash_seed() -> u64; }')
    t = t.replace('use crate::cell::Cell;', '')
    i = t.index('        // Historically this function'); j = t.index('impl BuildHasher for RandomState')
    j = t.rindex('#[stable', 0, j)
    t = t[:i] + '        RandomState { k0: unsafe { __sym_hash_seed() }, k1: 0 }\n    }\n}\n\n' + t[j:]
    t = sub(t, 'DefaultHasher(SipHasher13::new_with_keys(self.k0, self.k1))', 'DefaultHasher(self.k0.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(self.k1))')
    i = t.index('/// The default [`Hasher`] used by [`RandomState`].')
    j = t.index('#[stable(feature = "hashmap_build_hasher", since = "1.7.0")]\nimpl Default for RandomState')
    t = t[:i] + HASHER + '\n' + t[j:]
    open(p, 'w').write(t)
    p = dst + '/library/std/src/io/stdio.rs'
    t = open(p).read()
    t = sub(t, '    print_to(args, stdout, "stdout");', '    let _ = args;')
    t = sub(t, '    print_to(args, stderr, "stderr");', '    let _ = args;')
    t = sub(t, 'fn print_to<T>(', '#[allow(dead_code)]\nfn print_to<T>(')
    open(p, 'w').write(t)
    p = dst + '/library/std/src/thread/functions.rs'
    t = open(p).read()
    t = sub(t, 'pub fn available_parallelism() -> io::Result<NonZero<usize>> {\n    imp::available_parallelism()', 'pub fn available_parallelism() -> io::Result<NonZero<usize>> {\n    Ok(NonZero::<usize>::MIN)')
    open(p, 'w').write(t)
    open(stamp, 'w').write(src + me)

main(sys.argv[1])
