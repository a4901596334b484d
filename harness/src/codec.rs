//! Stand-ins for the C compression libraries, linked into the symbolic build
//! only (feature "standins").  They keep the libraries' contracts as their
//! manuals state them: which parameters are refused, which return code means
//! what, that an encoder may hold all data back until it is told to finish,
//! that a call may take any part of its input and fill any part of its output,
//! and that a decoder refuses streams of another format, reports the end of a
//! stream and returns exactly what was encoded.  The data itself is stored, not
//! compressed.  Counterexamples are replayed against the real libraries.
#![allow(non_snake_case, non_camel_case_types, clippy::missing_safety_doc)]
use std::ffi::{c_char, c_int, c_uint, c_void};
use std::ptr;

/// How the stand-ins behave within their contracts.
#[derive(Clone, Copy)]
pub struct Mode {
    /// encoders hold everything back until they are told to finish
    pub lazy: bool,
    /// bytes taken or produced by one call at most
    pub step: usize,
}
static mut MODE: Mode = Mode { lazy: true, step: usize::MAX };
pub fn set_mode(m: Mode) {
    unsafe { MODE = m }
}
fn mode() -> Mode {
    unsafe { MODE }
}

/// A stream: bytes to give out, and what is still held back.
struct Enc {
    out: Vec<u8>,
    held: Vec<u8>,
    done: bool,
}
/// One block: a mark, a length and the data.
fn block(out: &mut Vec<u8>, mark: u8, data: &[u8]) {
    out.push(mark);
    out.extend_from_slice(&(data.len() as u32).to_le_bytes());
    out.extend_from_slice(data);
}
impl Enc {
    fn new(magic: &[u8]) -> Enc {
        Enc { out: magic.to_vec(), held: vec![], done: false }
    }
    fn take(&mut self, d: &[u8]) {
        self.held.extend_from_slice(d);
        if !mode().lazy {
            self.flush();
        }
    }
    fn flush(&mut self) {
        if !self.held.is_empty() {
            let d = std::mem::take(&mut self.held);
            block(&mut self.out, b'D', &d);
        }
    }
    fn finish(&mut self, trailer: &[u8]) {
        if !self.done {
            self.flush();
            self.out.push(b'E');
            self.out.extend_from_slice(trailer);
            self.done = true;
        }
    }
    /// Moves bytes to the caller; how many.
    unsafe fn give(&mut self, to: *mut u8, room: usize) -> usize {
        let n = room.min(self.out.len()).min(mode().step);
        ptr::copy_nonoverlapping(self.out.as_ptr(), to, n);
        self.out.drain(..n);
        n
    }
}
#[derive(PartialEq)]
enum At {
    Magic,
    Mark,
    Len,
    Data(usize),
    Trailer,
    End,
    Bad,
}
struct Dec {
    magic: &'static [u8],
    /// ranges the bytes of the header may have, where they vary
    free: Option<(usize, u8, u8)>,
    trailer: usize,
    at: At,
    got: Vec<u8>,
    out: Vec<u8>,
}
impl Dec {
    fn new(magic: &'static [u8], free: Option<(usize, u8, u8)>, trailer: usize) -> Dec {
        Dec { magic, free, trailer, at: if magic.is_empty() { At::Mark } else { At::Magic }, got: vec![], out: vec![] }
    }
    /// Takes one byte; false if the stream is not of this format.
    fn byte(&mut self, b: u8) -> bool {
        match self.at {
            At::Magic => {
                let i = self.got.len();
                let good = match self.free {
                    Some((k, lo, hi)) if k == i => b >= lo && b <= hi,
                    _ => b == self.magic[i],
                };
                if !good {
                    self.at = At::Bad;
                    return false;
                }
                self.got.push(b);
                if self.got.len() == self.magic.len() {
                    self.got.clear();
                    self.at = At::Mark;
                }
            }
            At::Mark => match b {
                b'D' => self.at = At::Len,
                b'E' => self.at = if self.trailer == 0 { At::End } else { At::Trailer },
                _ => {
                    self.at = At::Bad;
                    return false;
                }
            },
            At::Len => {
                self.got.push(b);
                if self.got.len() == 4 {
                    let n = u32::from_le_bytes([self.got[0], self.got[1], self.got[2], self.got[3]]) as usize;
                    self.got.clear();
                    self.at = if n == 0 { At::Mark } else { At::Data(n) };
                }
            }
            At::Data(n) => {
                self.out.push(b);
                self.at = if n == 1 { At::Mark } else { At::Data(n - 1) };
            }
            At::Trailer => {
                self.got.push(b);
                if self.got.len() == self.trailer {
                    self.got.clear();
                    self.at = At::End;
                }
            }
            At::End | At::Bad => return false,
        }
        true
    }
    /// Decodes; bytes taken, bytes given, and whether the format is wrong.
    unsafe fn run(&mut self, from: *const u8, avail: usize, to: *mut u8, room: usize) -> (usize, usize, bool) {
        let mut took = 0;
        while took < avail && took < mode().step && self.at != At::End && self.out.len() < room {
            if self.at == At::Bad || !self.byte(*from.add(took)) {
                return (took, 0, true);
            }
            took += 1;
        }
        let n = room.min(self.out.len()).min(mode().step);
        ptr::copy_nonoverlapping(self.out.as_ptr(), to, n);
        self.out.drain(..n);
        (took, n, false)
    }
    fn ended(&self) -> bool {
        self.at == At::End && self.out.is_empty()
    }
}

// ---- zlib -----------------------------------------------------------------------
#[repr(C)]
pub struct z_stream {
    next_in: *mut u8,
    avail_in: c_uint,
    total_in: u64,
    next_out: *mut u8,
    avail_out: c_uint,
    total_out: u64,
    msg: *mut c_char,
    state: *mut c_void,
    zalloc: *mut c_void,
    zfree: *mut c_void,
    opaque: *mut c_void,
    data_type: c_int,
    adler: u64,
    reserved: u64,
}
#[no_mangle]
pub unsafe extern "C" fn zlibVersion() -> *const c_char {
    b"1.3.1\0".as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn deflateInit2_(s: *mut z_stream, level: c_int, method: c_int, window: c_int, mem: c_int, strategy: c_int, _v: *const c_char, size: c_int) -> c_int {
    if size as usize != std::mem::size_of::<z_stream>() {
        return -6;
    }
    let w = window.abs();
    if level < -1 || level > 9 || method != 8 || w < 8 || w > 15 || mem < 1 || mem > 9 || strategy < 0 || strategy > 4 {
        return -2;
    }
    (*s).state = Box::into_raw(Box::new(Enc::new(b"z"))) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn deflate(s: *mut z_stream, flush: c_int) -> c_int {
    let e = &mut *((*s).state as *mut Enc);
    if flush < 0 || flush > 5 || (e.done && flush != 4) || (e.done && (*s).avail_in > 0) || (*s).avail_out == 0 && !e.done {
        return if flush < 0 || flush > 5 || (e.done && flush != 4) { -2 } else { -5 };
    }
    let n = ((*s).avail_in as usize).min(mode().step);
    if n > 0 {
        e.take(std::slice::from_raw_parts((*s).next_in, n));
    }
    (*s).next_in = (*s).next_in.add(n);
    (*s).avail_in -= n as c_uint;
    (*s).total_in += n as u64;
    let all = (*s).avail_in == 0;
    if all && flush == 4 {
        e.finish(b"");
    } else if all && flush > 0 {
        e.flush();
    }
    let m = e.give((*s).next_out, (*s).avail_out as usize);
    (*s).next_out = (*s).next_out.add(m);
    (*s).avail_out -= m as c_uint;
    (*s).total_out += m as u64;
    if e.done && e.out.is_empty() {
        1
    } else if n == 0 && m == 0 {
        -5
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn deflateEnd(s: *mut z_stream) -> c_int {
    drop(Box::from_raw((*s).state as *mut Enc));
    0
}
#[no_mangle]
pub unsafe extern "C" fn inflateInit2_(s: *mut z_stream, window: c_int, _v: *const c_char, size: c_int) -> c_int {
    let w = window.abs();
    if size as usize != std::mem::size_of::<z_stream>() || w > 15 {
        return -2;
    }
    (*s).state = Box::into_raw(Box::new(Dec::new(b"z", None, 0))) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn inflateReset2(s: *mut z_stream, _window: c_int) -> c_int {
    *((*s).state as *mut Dec) = Dec::new(b"z", None, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn inflate(s: *mut z_stream, _flush: c_int) -> c_int {
    let d = &mut *((*s).state as *mut Dec);
    if d.ended() {
        return 1;
    }
    let (n, m, bad) = d.run((*s).next_in, (*s).avail_in as usize, (*s).next_out, (*s).avail_out as usize);
    (*s).next_in = (*s).next_in.add(n);
    (*s).avail_in -= n as c_uint;
    (*s).total_in += n as u64;
    (*s).next_out = (*s).next_out.add(m);
    (*s).avail_out -= m as c_uint;
    (*s).total_out += m as u64;
    if bad {
        -3
    } else if d.ended() {
        1
    } else if n == 0 && m == 0 {
        -5
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn inflateEnd(s: *mut z_stream) -> c_int {
    drop(Box::from_raw((*s).state as *mut Dec));
    0
}

// ---- bzip2 ----------------------------------------------------------------------
#[repr(C)]
pub struct bz_stream {
    next_in: *mut u8,
    avail_in: c_uint,
    total_in_lo32: c_uint,
    total_in_hi32: c_uint,
    next_out: *mut u8,
    avail_out: c_uint,
    total_out_lo32: c_uint,
    total_out_hi32: c_uint,
    state: *mut c_void,
    bzalloc: *mut c_void,
    bzfree: *mut c_void,
    opaque: *mut c_void,
}
impl bz_stream {
    unsafe fn moved(&mut self, n: usize, m: usize) {
        self.next_in = self.next_in.add(n);
        self.avail_in -= n as c_uint;
        self.total_in_lo32 += n as c_uint;
        self.next_out = self.next_out.add(m);
        self.avail_out -= m as c_uint;
        self.total_out_lo32 += m as c_uint;
    }
}
#[no_mangle]
pub unsafe extern "C" fn BZ2_bzCompressInit(s: *mut bz_stream, blocks: c_int, _verbosity: c_int, work: c_int) -> c_int {
    if s.is_null() || blocks < 1 || blocks > 9 || work < 0 || work > 250 {
        return -2;
    }
    let magic = [b'B', b'Z', b'h', b'0' + blocks as u8];
    (*s).state = Box::into_raw(Box::new(Enc::new(&magic))) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn BZ2_bzCompress(s: *mut bz_stream, action: c_int) -> c_int {
    let e = &mut *((*s).state as *mut Enc);
    if e.done && e.out.is_empty() || e.done && action != 2 {
        return -1;
    }
    let n = ((*s).avail_in as usize).min(mode().step);
    if n > 0 {
        e.take(std::slice::from_raw_parts((*s).next_in, n));
    }
    let all = n == (*s).avail_in as usize;
    match action {
        2 if all => e.finish(b"\x00\x00\x00\x00"),
        1 if all => e.flush(),
        _ => {}
    }
    let m = e.give((*s).next_out, (*s).avail_out as usize);
    (*s).moved(n, m);
    match action {
        0 => {
            if n == 0 && m == 0 {
                -2
            } else {
                1
            }
        }
        1 => {
            if all && e.out.is_empty() {
                1
            } else {
                2
            }
        }
        2 => {
            if e.done && e.out.is_empty() {
                4
            } else {
                3
            }
        }
        _ => -2,
    }
}
#[no_mangle]
pub unsafe extern "C" fn BZ2_bzCompressEnd(s: *mut bz_stream) -> c_int {
    drop(Box::from_raw((*s).state as *mut Enc));
    0
}
#[no_mangle]
pub unsafe extern "C" fn BZ2_bzDecompressInit(s: *mut bz_stream, verbosity: c_int, small: c_int) -> c_int {
    if s.is_null() || (small != 0 && small != 1) || verbosity < 0 || verbosity > 4 {
        return -2;
    }
    (*s).state = Box::into_raw(Box::new(Dec::new(b"BZh9", Some((3, b'1', b'9')), 4))) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn BZ2_bzDecompress(s: *mut bz_stream) -> c_int {
    let d = &mut *((*s).state as *mut Dec);
    if d.ended() {
        return -1;
    }
    let magic = d.at == At::Magic;
    let (n, m, bad) = d.run((*s).next_in, (*s).avail_in as usize, (*s).next_out, (*s).avail_out as usize);
    (*s).moved(n, m);
    if bad {
        if magic {
            -5
        } else {
            -4
        }
    } else if d.ended() {
        4
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn BZ2_bzDecompressEnd(s: *mut bz_stream) -> c_int {
    drop(Box::from_raw((*s).state as *mut Dec));
    0
}

// ---- liblzma --------------------------------------------------------------------
#[repr(C)]
pub struct lzma_stream {
    next_in: *const u8,
    avail_in: usize,
    total_in: u64,
    next_out: *mut u8,
    avail_out: usize,
    total_out: u64,
    allocator: *const c_void,
    internal: *mut Lzma,
    reserved_ptr: [*mut c_void; 4],
    reserved_int: [u64; 4],
    reserved_enum: [c_int; 2],
}
pub enum Lzma {
    #[allow(private_interfaces)]
    Enc(Enc),
    #[allow(private_interfaces)]
    Dec(Dec),
}
/// The stream header and the start of the block header, whose last byte is the
/// size of the dictionary.
const XZ: &[u8] = b"\xfd7zXZ\x00\x00\x04\x00\x00\x00\x00\x02\x00\x21\x01\x16";
const XZ_DICT: [u8; 10] = [0x0c, 0x10, 0x12, 0x14, 0x14, 0x16, 0x16, 0x18, 0x1a, 0x1c];
#[no_mangle]
pub unsafe extern "C" fn lzma_easy_encoder(s: *mut lzma_stream, preset: u32, check: c_int) -> c_int {
    let (level, flags) = (preset & 0x1f, preset & !0x1f);
    if level > 9 || flags & !(1 << 31) != 0 {
        return 8;
    }
    if check < 0 || check > 15 {
        return 11;
    }
    if check != 0 && check != 1 && check != 4 && check != 10 {
        return 3;
    }
    let mut head = XZ.to_vec();
    head[16] = XZ_DICT[level as usize];
    (*s).internal = Box::into_raw(Box::new(Lzma::Enc(Enc::new(&head))));
    0
}
#[no_mangle]
pub unsafe extern "C" fn lzma_stream_decoder(s: *mut lzma_stream, _limit: u64, flags: u32) -> c_int {
    if flags & !0x1f != 0 {
        return 8;
    }
    (*s).internal = Box::into_raw(Box::new(Lzma::Dec(Dec::new(XZ, Some((16, 0x0c, 0x1c)), 2))));
    0
}
#[no_mangle]
pub unsafe extern "C" fn lzma_code(s: *mut lzma_stream, action: c_int) -> c_int {
    if (*s).internal.is_null() {
        return 11;
    }
    let (n, m, rc);
    match &mut *(*s).internal {
        Lzma::Enc(e) => {
            if e.done && (*s).avail_in > 0 {
                return 11;
            }
            n = (*s).avail_in.min(mode().step);
            if n > 0 {
                e.take(std::slice::from_raw_parts((*s).next_in, n));
            }
            let all = n == (*s).avail_in;
            match action {
                3 if all => e.finish(b"YZ"),
                1 | 2 if all => e.flush(),
                _ => {}
            }
            m = e.give((*s).next_out, (*s).avail_out);
            let empty = e.out.is_empty();
            rc = if action == 3 && e.done && empty || (action == 1 || action == 2) && all && empty {
                1
            } else if n == 0 && m == 0 {
                10
            } else {
                0
            };
        }
        Lzma::Dec(d) => {
            if d.ended() {
                return 1;
            }
            let magic = d.at == At::Magic;
            let (a, b, bad) = d.run((*s).next_in, (*s).avail_in, (*s).next_out, (*s).avail_out);
            n = a;
            m = b;
            rc = if bad {
                if magic {
                    7
                } else {
                    9
                }
            } else if d.ended() {
                1
            } else if n == 0 && m == 0 {
                10
            } else {
                0
            };
        }
    }
    (*s).next_in = (*s).next_in.add(n);
    (*s).avail_in -= n;
    (*s).total_in += n as u64;
    (*s).next_out = (*s).next_out.add(m);
    (*s).avail_out -= m;
    (*s).total_out += m as u64;
    rc
}
#[no_mangle]
pub unsafe extern "C" fn lzma_end(s: *mut lzma_stream) {
    if !(*s).internal.is_null() {
        drop(Box::from_raw((*s).internal));
        (*s).internal = ptr::null_mut();
    }
}

// ---- lz4 ------------------------------------------------------------------------
#[repr(C)]
pub struct Lz4Preferences {
    block_size_id: c_uint,
    block_mode: c_uint,
    content_checksum: c_uint,
    frame_reserved: [c_uint; 5],
    level: c_uint,
    auto_flush: c_uint,
    favor_dec_speed: c_uint,
    reserved: [c_uint; 3],
}
struct Lz4Enc {
    e: Enc,
    block: usize,
    begun: bool,
}
const LZ4: &[u8] = b"\x04\x22\x4d\x18\x64\x40\xa7";
fn lz4_err(code: usize) -> usize {
    0usize.wrapping_sub(code)
}
fn lz4_block(id: c_uint) -> Option<usize> {
    match id {
        0 | 4 => Some(64 << 10),
        5 => Some(256 << 10),
        6 => Some(1 << 20),
        7 => Some(4 << 20),
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_isError(code: usize) -> c_uint {
    (code > lz4_err(21)) as c_uint
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_getErrorName(_code: usize) -> *const c_char {
    b"ERROR\0".as_ptr() as *const c_char
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_compressBound(n: usize, p: *const Lz4Preferences) -> usize {
    match lz4_block((*p).block_size_id) {
        // what may be held back, the new data, and marks and lengths
        Some(b) => b + n + 64 + 8 * (n / b + 2),
        None => lz4_err(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_createCompressionContext(c: *mut *mut c_void, version: c_uint) -> usize {
    if version != 100 {
        return lz4_err(7);
    }
    *c = Box::into_raw(Box::new(Lz4Enc { e: Enc::new(b""), block: 0, begun: false })) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_freeCompressionContext(c: *mut c_void) -> usize {
    drop(Box::from_raw(c as *mut Lz4Enc));
    0
}
/// Hands everything that is ready to the caller, which must have room for it.
unsafe fn lz4_give(e: &mut Enc, to: *mut u8, room: usize) -> usize {
    let n = e.out.len();
    if n > room {
        return lz4_err(11);
    }
    ptr::copy_nonoverlapping(e.out.as_ptr(), to, n);
    e.out.clear();
    n
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_compressBegin(c: *mut c_void, to: *mut u8, room: usize, p: *const Lz4Preferences) -> usize {
    let s = &mut *(c as *mut Lz4Enc);
    if room < 19 {
        return lz4_err(11);
    }
    s.block = match lz4_block((*p).block_size_id) {
        Some(b) => b,
        None => return lz4_err(2),
    };
    s.begun = true;
    s.e.out.extend_from_slice(LZ4);
    s.e.out[5] = match (*p).block_size_id {
        0 => 0x40,
        id => (id << 4) as u8,
    };
    lz4_give(&mut s.e, to, room)
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_compressUpdate(c: *mut c_void, to: *mut u8, room: usize, from: *const u8, n: usize, _o: *const c_void) -> usize {
    let s = &mut *(c as *mut Lz4Enc);
    if !s.begun {
        return lz4_err(1);
    }
    s.e.take(std::slice::from_raw_parts(from, n));
    if s.e.held.len() >= s.block {
        s.e.flush();
    }
    lz4_give(&mut s.e, to, room)
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_flush(c: *mut c_void, to: *mut u8, room: usize, _o: *const c_void) -> usize {
    let s = &mut *(c as *mut Lz4Enc);
    s.e.flush();
    lz4_give(&mut s.e, to, room)
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_compressEnd(c: *mut c_void, to: *mut u8, room: usize, _o: *const c_void) -> usize {
    let s = &mut *(c as *mut Lz4Enc);
    if !s.begun {
        return lz4_err(1);
    }
    s.e.finish(b"\x00\x00\x00\x00");
    s.begun = false;
    lz4_give(&mut s.e, to, room)
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_createDecompressionContext(c: *mut *mut c_void, version: c_uint) -> usize {
    if version != 100 {
        return lz4_err(7);
    }
    *c = Box::into_raw(Box::new(Dec::new(LZ4, Some((5, 0x40, 0x70)), 4))) as *mut c_void;
    0
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_freeDecompressionContext(c: *mut c_void) -> usize {
    drop(Box::from_raw(c as *mut Dec));
    0
}
#[no_mangle]
pub unsafe extern "C" fn LZ4F_decompress(c: *mut c_void, to: *mut u8, room: *mut usize, from: *const u8, n: *mut usize, _o: *const c_void) -> usize {
    let d = &mut *(c as *mut Dec);
    let (a, b, bad) = d.run(from, *n, to, *room);
    *n = a;
    *room = b;
    if bad {
        return lz4_err(13);
    }
    if d.ended() {
        return 0;
    }
    // how many bytes would be useful next
    match d.at {
        At::Magic => LZ4.len() - d.got.len(),
        At::Mark => 1,
        At::Len => 4 - d.got.len(),
        At::Data(k) => k + 1,
        At::Trailer => 4 - d.got.len(),
        _ => 1,
    }
}
