//! Minimal PNG reader (non-interlaced), independent of the generator's decoder.

pub struct Image {
    pub w: usize,
    pub h: usize,
    /// true where the red channel is zero (the generator's "ink" criterion)
    pub ink: Vec<bool>,
    /// red samples, as they are in the file
    pub red: Vec<usize>,
}

impl Image {
    pub fn at(&self, x: usize, y: usize) -> bool {
        x < self.w && y < self.h && self.ink[y * self.w + x]
    }
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    bit: u32,
}

impl<'a> Bits<'a> {
    fn bit(&mut self) -> u32 {
        let b = (self.d[self.pos] >> self.bit) & 1;
        self.bit += 1;
        if self.bit == 8 {
            self.bit = 0;
            self.pos += 1;
        }
        b as u32
    }
    fn bits(&mut self, n: u32) -> u32 {
        (0..n).fold(0, |a, i| a | self.bit() << i)
    }
    fn align(&mut self) {
        if self.bit != 0 {
            self.bit = 0;
            self.pos += 1;
        }
    }
}

struct Huff {
    count: [u16; 16],
    sym: Vec<u16>,
}

impl Huff {
    fn new(lens: &[u8]) -> Huff {
        let mut count = [0u16; 16];
        for &l in lens {
            count[l as usize] += 1;
        }
        count[0] = 0;
        let mut offs = [0usize; 16];
        for i in 1..16 {
            offs[i] = offs[i - 1] + count[i - 1] as usize;
        }
        let mut sym = vec![0u16; lens.len()];
        for (s, &l) in lens.iter().enumerate() {
            if l > 0 {
                sym[offs[l as usize]] = s as u16;
                offs[l as usize] += 1;
            }
        }
        Huff { count, sym }
    }
    fn get(&self, b: &mut Bits) -> u16 {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= b.bit() as i32;
            let count = self.count[len] as i32;
            if code - count < first {
                return self.sym[(index + code - first) as usize];
            }
            index += count;
            first = (first + count) << 1;
            code <<= 1;
        }
        panic!("bad huffman code");
    }
}

fn inflate(z: &[u8]) -> Vec<u8> {
    const LBASE: [u16; 29] = [
        3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227,
        258,
    ];
    const LEXT: [u8; 29] = [
        0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
    ];
    const DBASE: [u16; 30] = [
        1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097,
        6145, 8193, 12289, 16385, 24577,
    ];
    const DEXT: [u8; 30] = [
        0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13,
    ];
    let mut b = Bits { d: z, pos: 2, bit: 0 };
    let mut out = Vec::new();
    loop {
        let last = b.bit();
        match b.bits(2) {
            0 => {
                b.align();
                let n = z[b.pos] as usize | (z[b.pos + 1] as usize) << 8;
                b.pos += 4;
                out.extend_from_slice(&z[b.pos..b.pos + n]);
                b.pos += n;
            }
            t @ (1 | 2) => {
                let (lit, dist) = if t == 1 {
                    let mut l = [8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    (Huff::new(&l), Huff::new(&[5u8; 30]))
                } else {
                    let (hl, hd, hc) = (b.bits(5) + 257, b.bits(5) + 1, b.bits(4) + 4);
                    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
                    let mut cl = [0u8; 19];
                    for &o in ORDER.iter().take(hc as usize) {
                        cl[o] = b.bits(3) as u8;
                    }
                    let ch = Huff::new(&cl);
                    let mut lens: Vec<u8> = vec![];
                    while lens.len() < (hl + hd) as usize {
                        match ch.get(&mut b) {
                            s @ 0..=15 => lens.push(s as u8),
                            16 => {
                                let p = *lens.last().unwrap();
                                for _ in 0..3 + b.bits(2) {
                                    lens.push(p)
                                }
                            }
                            17 => {
                                for _ in 0..3 + b.bits(3) {
                                    lens.push(0)
                                }
                            }
                            _ => {
                                for _ in 0..11 + b.bits(7) {
                                    lens.push(0)
                                }
                            }
                        }
                    }
                    (Huff::new(&lens[..hl as usize]), Huff::new(&lens[hl as usize..]))
                };
                loop {
                    match lit.get(&mut b) {
                        s @ 0..=255 => out.push(s as u8),
                        256 => break,
                        s => {
                            let i = s as usize - 257;
                            let len = LBASE[i] as usize + b.bits(LEXT[i] as u32) as usize;
                            let d = dist.get(&mut b) as usize;
                            let dd = DBASE[d] as usize + b.bits(DEXT[d] as u32) as usize;
                            for _ in 0..len {
                                out.push(out[out.len() - dd]);
                            }
                        }
                    }
                }
            }
            _ => panic!("bad deflate block"),
        }
        if last == 1 {
            return out;
        }
    }
}

pub fn decode(file: &[u8]) -> Image {
    assert_eq!(&file[..8], b"\x89PNG\r\n\x1a\n", "not a PNG");
    let be = |p: usize| u32::from_be_bytes(file[p..p + 4].try_into().unwrap()) as usize;
    let (mut w, mut h, mut depth, mut ctype) = (0, 0, 0usize, 0u8);
    let mut plte: Vec<u8> = vec![];
    let mut idat = vec![];
    let mut p = 8;
    while p < file.len() {
        let n = be(p);
        let d = &file[p + 8..p + 8 + n];
        match &file[p + 4..p + 8] {
            b"IHDR" => {
                w = be(p + 8);
                h = be(p + 12);
                depth = d[8] as usize;
                ctype = d[9];
                assert_eq!(d[12], 0, "interlaced PNG");
            }
            b"PLTE" => plte = d.to_vec(),
            b"IDAT" => idat.extend_from_slice(d),
            _ => {}
        }
        p += 12 + n;
    }
    let channels = match ctype {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        6 => 4,
        _ => panic!("bad color type"),
    };
    let raw = inflate(&idat);
    let bpp = (channels * depth).div_ceil(8);
    let stride = (w * channels * depth).div_ceil(8);
    let mut prev = vec![0u8; stride];
    let mut ink = Vec::with_capacity(w * h);
    let mut reds = Vec::with_capacity(w * h);
    for y in 0..h {
        let line = &raw[y * (stride + 1)..(y + 1) * (stride + 1)];
        let mut cur = line[1..].to_vec();
        for i in 0..stride {
            let a = if i >= bpp { cur[i - bpp] } else { 0 } as i32;
            let b = prev[i] as i32;
            let c = if i >= bpp { prev[i - bpp] } else { 0 } as i32;
            let add = match line[0] {
                0 => 0,
                1 => a,
                2 => b,
                3 => (a + b) / 2,
                4 => {
                    let p = a + b - c;
                    let (pa, pb, pc) = ((p - a).abs(), (p - b).abs(), (p - c).abs());
                    if pa <= pb && pa <= pc {
                        a
                    } else if pb <= pc {
                        b
                    } else {
                        c
                    }
                }
                _ => panic!("bad filter"),
            };
            cur[i] = cur[i].wrapping_add(add as u8);
        }
        for x in 0..w {
            let v = if depth == 8 {
                cur[x * channels] as usize
            } else if depth == 16 {
                (cur[x * channels * 2] as usize) << 8 | cur[x * channels * 2 + 1] as usize
            } else {
                let per = 8 / depth;
                ((cur[x / per] >> (8 - depth - (x % per) * depth)) as usize) & ((1 << depth) - 1)
            };
            let red = if ctype == 3 { plte[v * 3] as usize } else { v };
            ink.push(red == 0);
            reds.push(red);
        }
        prev = cur;
    }
    Image { w, h, ink, red: reds }
}
