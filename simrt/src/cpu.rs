//! The simulated processor and operating system: what CPUID and XGETBV report, and which
//! instructions would fault.

pub const SSE3: u32 = 1 << 0;
pub const SSSE3: u32 = 1 << 1;
pub const SSE41: u32 = 1 << 2;
pub const SSE42: u32 = 1 << 3;
pub const POPCNT: u32 = 1 << 4;
pub const XSAVE: u32 = 1 << 5;
/// The operating system has enabled XSAVE/XGETBV.
pub const OSXSAVE: u32 = 1 << 6;
pub const AVX: u32 = 1 << 7;
pub const AVX2: u32 = 1 << 8;
pub const BMI: u32 = 1 << 9;
pub const FMA: u32 = 1 << 10;
pub const AVX512: u32 = 1 << 11;
/// XCR0 enables the upper halves of the YMM registers.
pub const OSYMM: u32 = 1 << 12;
/// XCR0 enables the AVX-512 state.
pub const OSZMM: u32 = 1 << 13;
/// CPUID reports leaf 7.
pub const LEAF7: u32 = 1 << 14;
pub const AMD: u32 = 1 << 15;
/// CPUID stops at leaf 1.
pub const LEAF1: u32 = 1 << 16;
pub const F16C: u32 = 1 << 17;
pub const MOVBE: u32 = 1 << 18;
pub const LZCNT: u32 = 1 << 19;
/// CPUID does not report SSE2 (masked by a hypervisor), so the library must do without vectors. The
/// instructions themselves are part of the architecture's baseline and stay legal.
pub const NOSSE2: u32 = 1 << 20;
pub const BMI2: u32 = 1 << 21;
/// The byte, word, quadword and shorter-vector parts of AVX-512, which Knights Landing lacks.
pub const AVX512BW: u32 = 1 << 22;

const OLD: u32 = SSE3 | SSSE3;
const NEHALEM: u32 = OLD | SSE41 | SSE42 | POPCNT;
const SANDY: u32 = NEHALEM | XSAVE | OSXSAVE | AVX | OSYMM;
const HASWELL: u32 = SANDY | AVX2 | BMI | BMI2 | FMA | F16C | MOVBE | LZCNT | LEAF7;
const KNL: u32 = HASWELL | AVX512 | OSZMM;
const SKX: u32 = KNL | AVX512BW;

/// Named machines a deployment meets.
pub const PRESETS: &[(&str, u32)] = &[
    ("k8", AMD | LEAF1),
    ("no-vectors-reported", NOSSE2),
    ("no-vectors-reported-amd", NOSSE2 | AMD),
    ("core2", OLD),
    ("nehalem", NEHALEM),
    ("sandybridge", SANDY),
    ("ivybridge", SANDY | F16C | LEAF7),
    ("haswell", HASWELL),
    ("knights-landing", KNL),
    ("skylake-x", SKX),
    ("skylake-x-no-zmm", SKX & !OSZMM),
    ("bulldozer", SANDY | AMD | LZCNT),
    ("piledriver", SANDY | AMD | BMI | FMA | F16C | LZCNT | LEAF7),
    ("zen", HASWELL | AMD),
    ("celeron", NEHALEM | XSAVE | OSXSAVE | MOVBE | LEAF7),
    ("haswell-old-os", HASWELL & !(OSXSAVE | OSYMM)),
    ("haswell-noxsave-kernel", HASWELL & !(OSXSAVE | OSYMM | XSAVE)),
    ("haswell-xcr0-sse-only", HASWELL & !OSYMM),
    ("sandybridge-old-os", SANDY & !(OSXSAVE | OSYMM)),
    ("haswell-limit-cpuid", HASWELL & !LEAF7),
    ("haswell-hypervisor-masks-bmi", HASWELL & !(BMI | BMI2)),
    ("haswell-hypervisor-masks-lzcnt", HASWELL & !(LZCNT | MOVBE | BMI2)),
    ("haswell-hypervisor-masks-avx2", HASWELL & !AVX2),
    ("hypervisor-masks-avx", HASWELL & !(AVX | FMA | F16C)),
];

pub fn name(p: u32) -> String {
    PRESETS.iter().find(|x| x.1 == p).map(|x| x.0.to_string()).unwrap_or_else(|| format!("{p:#x}"))
}

pub fn cpuid(p: u32, mut leaf: u32, sub: u32) -> [u32; 4] {
    let has = |b: u32| p & b != 0;
    let max = if has(LEAF1) {
        1
    } else if has(LEAF7) {
        0xd
    } else {
        3
    };
    if leaf >= 0x8000_0000 {
        return match leaf {
            0x8000_0000 => [0x8000_0001, 0, 0, 0],
            0x8000_0001 => [0, 0, 1 | if has(LZCNT) { 1 << 5 } else { 0 }, (1 << 29) | (1 << 20) | (1 << 11)],
            _ => [0; 4],
        };
    }
    if leaf > max {
        if has(AMD) {
            return [0; 4];
        }
        leaf = max; // Intel: data of the highest basic leaf
    }
    match leaf {
        0 => {
            let (b, d, c) = if has(AMD) { (*b"Auth", *b"enti", *b"cAMD") } else { (*b"Genu", *b"ineI", *b"ntel") };
            [max, u32::from_le_bytes(b), u32::from_le_bytes(c), u32::from_le_bytes(d)]
        }
        1 => {
            let mut c = 0;
            for (f, bit) in [
                (SSE3, 0),
                (SSSE3, 9),
                (FMA, 12),
                (SSE41, 19),
                (SSE42, 20),
                (MOVBE, 22),
                (POPCNT, 23),
                (XSAVE, 26),
                (OSXSAVE, 27),
                (AVX, 28),
                (F16C, 29),
            ] {
                if has(f) {
                    c |= 1 << bit;
                }
            }
            // fpu, tsc, msr, cx8, sep, cmov, clflush, mmx, fxsr, sse, sse2
            let mut d = 1 | 1 << 4 | 1 << 5 | 1 << 8 | 1 << 11 | 1 << 15 | 1 << 19 | 1 << 23 | 1 << 24 | 1 << 25 | 1 << 26;
            if has(NOSSE2) {
                d &= !(1 << 25 | 1 << 26);
            }
            [0x000306c3, 0x0010_0800, c, d]
        }
        // Descriptors whose bits, read as leaf 7, would look like every feature being there.
        2 => [0x7603_6301, 0x00f0_b5ff, 0, 0x00c1_0000],
        3 => [0, 0xffff_ffff, 0, 0],
        7 if sub == 0 => {
            let mut b = 0;
            if has(BMI) {
                b |= 1 << 3;
            }
            if has(BMI2) {
                b |= 1 << 8;
            }
            if has(AVX2) {
                b |= 1 << 5;
            }
            if has(AVX512) {
                b |= 1 << 16 | 1 << 28;
            }
            if has(AVX512) && has(AVX512BW) {
                b |= 1 << 17 | 1 << 30 | 1 << 31;
            }
            [0, b, 0, 0]
        }
        0xd if sub == 0 => [xcr0(p) as u32, 0x340, 0x340, 0],
        _ => [0; 4],
    }
}

pub fn xcr0(p: u32) -> u64 {
    let mut x = 3;
    if p & OSYMM != 0 {
        x |= 4;
    }
    if p & OSZMM != 0 {
        x |= 0xe0;
    }
    x
}

fn avx_ok(p: u32) -> bool {
    p & AVX != 0 && p & OSXSAVE != 0 && p & OSYMM != 0
}
fn avx512_ok(p: u32) -> bool {
    avx_ok(p) && p & AVX512 != 0 && p & OSZMM != 0 && p & LEAF7 != 0
}

/// Name of the missing extension if the instruction would fault on (or is not reported by) this
/// machine.
pub fn missing(p: u32, code: &[u8; 16]) -> Option<&'static str> {
    let has = |b: u32| p & b != 0;
    let mut i = 0;
    let (mut rep, mut repne, mut osz) = (false, false, false);
    loop {
        match code[i] {
            0xf3 => rep = true,
            0xf2 => repne = true,
            0x66 => osz = true,
            0xf0 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 => {}
            _ => break,
        }
        i += 1;
        if i > 8 {
            return None;
        }
    }
    match code[i] {
        0xc4 | 0xc5 => {
            let (map, l, op, modrm) = if code[i] == 0xc5 {
                (1, code[i + 1] >> 2 & 1 == 1, code[i + 2], code[i + 3])
            } else {
                (code[i + 1] & 0x1f, code[i + 2] >> 2 & 1 == 1, code[i + 3], code[i + 4])
            };
            // the byte with W, L and the implied prefix (of two bytes there is no W)
            let last = if code[i] == 0xc5 { code[i + 1] & 0x7f } else { code[i + 2] };
            let pp = last & 3;
            if map == 2 && (matches!(op, 0xf2 | 0xf3) || op == 0xf7 && pp == 0) {
                return (!has(BMI) || !has(LEAF7)).then_some("bmi1");
            }
            if map == 2 && matches!(op, 0xf5 | 0xf6 | 0xf7) || map == 3 && op == 0xf0 {
                return (!has(BMI2) || !has(LEAF7)).then_some("bmi2");
            }
            if map == 1 && matches!(op, 0x41..=0x4b | 0x90..=0x93 | 0x98 | 0x99) {
                if !avx512_ok(p) {
                    return Some("avx512 mask registers");
                }
                // all but the 16-bit ones
                let wide = last & 0x80 != 0 || pp == 1 && op != 0x4b || pp == 3 || op == 0x99 || op == 0x4a;
                return (wide && !has(AVX512BW)).then_some("avx512bw mask registers");
            }
            if !avx_ok(p) {
                return Some("avx");
            }
            if map == 2 && matches!(op, 0x96..=0x9f | 0xa6..=0xaf | 0xb6..=0xbf) {
                return (!has(FMA)).then_some("fma");
            }
            if map == 2 && op == 0x13 || map == 3 && op == 0x1d {
                return (!has(F16C)).then_some("f16c");
            }
            let avx2 = match map {
                1 => {
                    l && matches!(op,
                    0x60..=0x6d | 0x70..=0x76 | 0xd1..=0xd5 | 0xd7..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe)
                }
                2 => {
                    matches!(op, 0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93)
                        || (l && matches!(op, 0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x40))
                        || (matches!(op, 0x18 | 0x19) && modrm >= 0xc0)
                }
                3 => {
                    matches!(op, 0x00..=0x02 | 0x38 | 0x39 | 0x46) || (l && matches!(op, 0x0e | 0x0f | 0x42 | 0x4c))
                }
                _ => false,
            };
            (avx2 && !(has(AVX2) && has(LEAF7))).then_some("avx2")
        }
        0x62 => {
            let (map, w, pp, op) = (code[i + 1] & 7, code[i + 2] & 0x80 != 0, code[i + 2] & 3, code[i + 4]);
            if !avx512_ok(p) {
                return Some("avx512");
            }
            // no simulated processor has these
            if map == 2 && !w && matches!(op, 0x75 | 0x7d | 0x8d | 0x83) || map == 2 && matches!(op, 0x54 | 0x55 | 0x62 | 0x63 | 0xcf) {
                return Some("avx512 vbmi, vbmi2, bitalg, vpopcntdq or gfni");
            }
            // work on bytes and words; what is shorter than 512 bits, but for scalar operations and
            // operations with a rounding mode in place of the length
            let bytes = match map {
                1 => {
                    matches!(op, 0x60 | 0x61 | 0x63..=0x65 | 0x67..=0x69 | 0x6b | 0x71 | 0x74 | 0x75 | 0xd1 | 0xd5 | 0xd8..=0xda
                        | 0xdc..=0xde | 0xe0 | 0xe1 | 0xe3..=0xe5 | 0xe8..=0xea | 0xec..=0xee | 0xf1 | 0xf5 | 0xf6 | 0xf8 | 0xf9 | 0xfc | 0xfd)
                        || pp == 3 && matches!(op, 0x6f | 0x7f)
                        || pp >= 2 && op == 0x70
                }
                2 => matches!(op, 0x00 | 0x04 | 0x0b | 0x1c | 0x1d | 0x20 | 0x26 | 0x30 | 0x38 | 0x3a | 0x3c | 0x3e | 0x66 | 0x75 | 0x78..=0x7b | 0x7d | 0x8d),
                3 => matches!(op, 0x0f | 0x14 | 0x15 | 0x20 | 0x3e | 0x3f | 0x42),
                _ => false,
            };
            let short = map == 1 && pp <= 1 && code[i + 3] & 0x10 == 0 && code[i + 3] & 0x60 != 0x40 && !matches!(op, 0x12 | 0x13 | 0x16 | 0x17 | 0x2e | 0x2f | 0x6e | 0x7e | 0xc4 | 0xc5 | 0xd6);
            ((bytes || short) && !has(AVX512BW)).then_some("avx512bw, avx512dq or avx512vl")
        }
        b => {
            let mut j = i;
            if b & 0xf0 == 0x40 {
                j += 1;
            }
            if code[j] != 0x0f {
                return None;
            }
            match (code[j + 1], code[j + 2]) {
                (0x38, op) => match op {
                    0x00..=0x0b | 0x1c..=0x1e => (!has(SSSE3)).then_some("ssse3"),
                    0x37 => (!has(SSE42)).then_some("sse4.2"),
                    0x10..=0x17 | 0x20..=0x2b | 0x30..=0x41 => (!has(SSE41)).then_some("sse4.1"),
                    0xf0 | 0xf1 if repne => (!has(SSE42)).then_some("sse4.2"),
                    0xf0 | 0xf1 => (!has(MOVBE)).then_some("movbe"),
                    _ => None,
                },
                (0x3a, op) => match op {
                    0x0f => (!has(SSSE3)).then_some("ssse3"),
                    0x60..=0x63 => (!has(SSE42)).then_some("sse4.2"),
                    0x08..=0x17 | 0x20..=0x22 | 0x40..=0x42 => (!has(SSE41)).then_some("sse4.1"),
                    _ => None,
                },
                (0xb8, _) if rep => (!has(POPCNT)).then_some("popcnt"),
                (0xbd, _) if rep => (!has(LZCNT)).then_some("lzcnt"),
                (0x12, _) if rep || repne => (!has(SSE3)).then_some("sse3"),
                (0x16, _) if rep => (!has(SSE3)).then_some("sse3"),
                (0xf0, _) if repne => (!has(SSE3)).then_some("sse3"),
                (0xd0 | 0x7c | 0x7d, _) if repne || osz => (!has(SSE3)).then_some("sse3"),
                _ => None,
            }
        }
    }
}

/// What the machine we run on really has, as a profile mask.
#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
pub fn host() -> u32 {
    let mut p = SSE3 | LEAF7;
    macro_rules! f {
        ($($n:tt => $b:expr),*) => { $( if std::is_x86_feature_detected!($n) { p |= $b; } )* };
    }
    f!("ssse3" => SSSE3, "sse4.1" => SSE41, "sse4.2" => SSE42, "popcnt" => POPCNT, "avx" => AVX | XSAVE | OSXSAVE | OSYMM,
       "avx2" => AVX2, "bmi1" => BMI, "bmi2" => BMI2, "avx512bw" => AVX512BW, "fma" => FMA, "f16c" => F16C, "avx512f" => AVX512 | OSZMM, "lzcnt" => LZCNT, "movbe" => MOVBE);
    p
}

/// Drop what the host cannot run, keeping the profile consistent.
pub fn clamp(p: u32, host: u32) -> u32 {
    let real = SSSE3 | SSE41 | SSE42 | POPCNT | AVX | AVX2 | BMI | BMI2 | FMA | F16C | AVX512 | AVX512BW | LZCNT | MOVBE;
    let mut q = p & (!real | host);
    if q & NOSSE2 != 0 {
        q &= NOSSE2 | AMD | LEAF1 | LEAF7;
    }
    if host & AVX == 0 {
        q &= !(OSXSAVE | OSYMM | OSZMM | XSAVE);
    }
    q
}
