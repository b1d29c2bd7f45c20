//! Synthetic ROM images: builder, chunk walker and song decoder.
use crate::nspc::{self, DecodedSong, RawTrack};
use crate::rng::Rng;

pub const DEFAULT_PTRS: [u32; 3] = [0x914, 0x926, 0x932];
pub const FIRST_SONG: [usize; 3] = [0xd036, 0xd046, 0xd046];
pub const SLOTS: [usize; 3] = [15, 16, 3];
pub const FIRST_SLOT: [usize; 3] = [0, 15, 31];

pub fn pc(snes: u32) -> usize {
    ((snes & 0x7fff) | ((snes >> 1) & 0x7f8000)) as usize
}

#[derive(Clone, Debug)]
pub struct ChunkInfo {
    pub hdr: usize,
    pub len: usize,
    pub aram: usize,
}

#[derive(Clone, Debug)]
pub struct BankInfo {
    pub chunks: Vec<ChunkInfo>,
    pub main: usize,
}

impl BankInfo {
    pub fn main(&self) -> &ChunkInfo {
        &self.chunks[self.main]
    }
    pub fn over(&self) -> &ChunkInfo {
        &self.chunks[self.main + 1]
    }
}

#[derive(Clone, Debug)]
pub struct Rom {
    pub data: Vec<u8>,
    pub ptrs: [u32; 3],
}

fn b(d: &[u8], i: usize) -> Result<usize, String> {
    d.get(i).map(|&x| x as usize).ok_or(format!("ROM offset {:x} out of range", i))
}

impl Rom {
    pub fn bank(&self, bank: usize) -> Result<BankInfo, String> {
        let d = &self.data;
        let p = self.ptrs[bank];
        let snes = (b(d, pc(p + 8))? as u32) << 16 | (b(d, pc(p + 4))? as u32) << 8 | b(d, pc(p))? as u32;
        let mut at = pc(snes);
        let mut chunks: Vec<ChunkInfo> = Vec::new();
        let mut main = None;
        loop {
            let len = b(d, at)? | b(d, at + 1)? << 8;
            let aram = b(d, at + 2)? | b(d, at + 3)? << 8;
            if aram == 0xd000 && main.is_none() {
                main = Some(chunks.len());
            }
            chunks.push(ChunkInfo { hdr: at, len, aram });
            if len == 0 {
                break;
            }
            at += 4 + len;
        }
        Ok(BankInfo { chunks, main: main.ok_or("no main chunk")? })
    }

    /// maps a sound-RAM address to a ROM offset through the bank's song chunks
    pub fn map(&self, bi: &BankInfo, bank: usize, a: usize) -> Result<usize, String> {
        let o = bi.over();
        if a >= o.aram && a < o.aram + o.len {
            return Ok(o.hdr + 4 + a - o.aram);
        }
        let m = bi.main();
        if a >= FIRST_SONG[bank] && a < m.aram + m.len {
            return Ok(m.hdr + 4 + a - m.aram);
        }
        Err(format!("sound-RAM address {:04x} is in no song data area", a))
    }

    pub fn table_entry_addr(&self, bi: &BankInfo, slot: usize) -> usize {
        bi.main().hdr + 4 + slot * 2
    }
}

/// byte ranges (sound RAM) a song occupies
#[derive(Clone, Debug)]
pub struct Extent {
    pub start: usize,
    pub len: usize,
    pub what: String,
}

#[derive(Clone, Debug)]
pub struct SlotSong {
    pub addr: usize,
    pub song: DecodedSong,
    pub pieces: Vec<Extent>,
    /// start of header, then tracks in part order
    pub in_overflow: Vec<bool>,
}

impl Rom {
    pub fn decode_slot(&self, bi: &BankInfo, bank: usize, slot: usize) -> Result<SlotSong, String> {
        let t = self.table_entry_addr(bi, slot);
        let addr = b(&self.data, t)? | b(&self.data, t + 1)? << 8;
        self.decode_at(bi, bank, addr)
    }

    pub fn decode_at(&self, bi: &BankInfo, bank: usize, addr: usize) -> Result<SlotSong, String> {
        let mem = |a: usize| -> Result<u8, String> { Ok(self.data[self.map(bi, bank, a)?]) };
        let word = |a: usize| -> Result<usize, String> { Ok(mem(a)? as usize | (mem(a + 1)? as usize) << 8) };
        let over = bi.over();
        let is_over = |a: usize| a >= over.aram && a < over.aram + over.len;
        let part = word(addr).map_err(|e| format!("song list: {}", e))?;
        let next = word(addr + 2).map_err(|e| format!("song list: {}", e))?;
        let mut song = DecodedSong::default();
        let list_len;
        match next {
            0 => list_len = 4,
            0xff => {
                let target = word(addr + 4)?;
                let end = word(addr + 6)?;
                if target != addr {
                    return Err(format!("song at {:04x} loops back to {:04x}", addr, target));
                }
                if end != 0 {
                    return Err(format!("song at {:04x}: list not terminated ({:04x})", addr, end));
                }
                song.looped = true;
                list_len = 8;
            }
            x => return Err(format!("song at {:04x}: unexpected list entry {:04x}", addr, x)),
        }
        let mut pieces = vec![Extent { start: addr, len: list_len, what: format!("song list {:04x}", addr) }];
        pieces.push(Extent { start: part, len: 16, what: format!("part list {:04x}", part) });
        let mut in_overflow = vec![is_over(addr)];
        let mut bodies: Vec<RawTrack> = Vec::new();
        for i in 0..8 {
            let p = word(part + 2 * i).map_err(|e| format!("part list: {}", e))?;
            if p == 0 {
                song.tracks.push(None);
                continue;
            }
            let t = nspc::decode_track(&mem, p, &mut bodies)
                .map_err(|e| format!("track {} at {:04x}: {}", i, p, e))?;
            // (a track may play at several positions)
            if !song.tracks.iter().flatten().any(|o| o.raw.start == p) {
                in_overflow.push(is_over(p));
                pieces.push(Extent { start: p, len: t.raw.len, what: format!("track {} {:04x}", i, p) });
            }
            song.tracks.push(Some(t));
        }
        for bd in &bodies {
            in_overflow.push(is_over(bd.start));
            pieces.push(Extent { start: bd.start, len: bd.len, what: format!("loop body {:04x}", bd.start) });
        }
        song.bodies = bodies;
        // all pieces resolve to single contiguous areas
        for p in &pieces {
            let a = self.map(bi, bank, p.start)?;
            let z = self.map(bi, bank, p.start + p.len - 1)?;
            if z - a != p.len - 1 {
                return Err(format!("{} straddles areas", p.what));
            }
        }
        Ok(SlotSong { addr, song, pieces, in_overflow })
    }
}

#[derive(Clone, Debug)]
pub struct BankCfg {
    /// (aram, len) before the main chunk
    pub pre: Vec<(usize, usize)>,
    pub main_len: usize,
    pub over_aram: usize,
    pub over_len: usize,
    pub post: Vec<(usize, usize)>,
    /// the address in the chain's terminator
    pub end_aram: usize,
}

#[derive(Clone, Debug)]
pub struct RomCfg {
    pub ptrs: [u32; 3],
    pub banks: [BankCfg; 3],
    pub fill: u64,
    /// total size is padded to at least this
    pub min_size: usize,
    /// bank pointers without the 8000 bit
    pub low_ptrs: bool,
    pub gaps: [usize; 4],
    /// which bank comes first in the image, second, third
    pub order: [usize; 3],
}

impl RomCfg {
    pub fn roomy() -> RomCfg {
        let bank = |over| BankCfg {
            pre: vec![],
            main_len: 0x2f00,
            over_aram: over,
            over_len: 0xcc00 - over,
            post: vec![],
            end_aram: 0x0800,
        };
        RomCfg {
            ptrs: DEFAULT_PTRS,
            banks: [bank(0x2b00), bank(0x2900), bank(0x2900)],
            fill: 0,
            min_size: 0x30000,
            low_ptrs: false,
            gaps: [0, 0, 0, 0],
            order: [0, 1, 2],
        }
    }

    /// Small image where the one song of interest goes into the overworld bank.
    pub fn single(main_len: usize, over_len: usize) -> RomCfg {
        let mut c = RomCfg::roomy();
        c.min_size = 0x1000;
        c.banks[0].main_len = main_len;
        c.banks[0].over_len = over_len;
        c.banks[1].main_len = 0x600;
        c.banks[1].over_len = 0x10;
        c.banks[2].main_len = 0x600;
        c.banks[2].over_len = 0x10;
        c
    }

    pub fn random(rng: &mut Rng) -> RomCfg {
        fn bank(rng: &mut Rng, idx: usize) -> BankCfg {
            let small_chunk = |rng: &mut Rng| (*rng.pick(&[0x0800usize, 0x3c00, 0x4000, 0x3d00, 0xd001, 0xcfff, 0x00d0, 0, 0x8000, 0xffff, 0xc000, 0x5000]), rng.us(1, 300));
            let mut pre: Vec<(usize, usize)> = (0..rng.us(0, 3)).map(|_| small_chunk(rng)).collect();
            let mut post: Vec<(usize, usize)> = (0..rng.us(0, 3)).map(|_| small_chunk(rng)).collect();
            if rng.chance(1, 12) {
                // as long as the samples, or longer
                let big = (0x4000usize, *rng.pick(&[0x7fffusize, 0x8000, 0x8001, 0xa0ff, 0xbfff, 0xff00, 0xffff]));
                if rng.chance(2, 3) {
                    pre.push(big);
                } else {
                    post.insert(0, big);
                }
            }
            let _ = idx;
            let over_len = match rng.weighted(&[2, 2, 1]) {
                0 => 0x688,
                1 => rng.us(0x200, 0x4000),
                _ => rng.us(1, 64),
            };
            BankCfg {
                pre,
                main_len: rng.us(0x800, 0x2fff),
                over_aram: *rng.pick(&[0x2b00usize, 0x2900, 0x2880, 0x1000, 0x28ff]),
                over_len,
                post,
                end_aram: match rng.below(3) {
                    0 => 0x0800,
                    1 => *rng.pick(&[0usize, 0x8000, 0xffff, 0xcfff, 0x2b00, 0x7fff]),
                    // (where the program starts: not in the song data)
                    _ => match rng.us(0, 0xffff) {
                        0xd000 => 0x0800,
                        x => x,
                    },
                },
            }
        }
        let ptrs = if rng.chance(1, 2) {
            DEFAULT_PTRS
        } else if rng.chance(1, 2) {
            // addresses in any bank, with and without the 8000 bit, also next to the end of a bank,
            // where the second or third byte of the pointer is elsewhere
            let mut ptrs;
            loop {
                ptrs = [0u32; 3];
                for p in ptrs.iter_mut() {
                    let bank = rng.below(3) as u32;
                    let off = match rng.below(3) {
                        0 => *rng.pick(&[0x7ff7u32, 0x7ff8, 0x7ffb, 0x7ffc, 0x7ffd, 0xfff8, 0xfffb, 0xfffc, 0x7fff, 0xffff]),
                        1 => 0x8000 + rng.below(0x8000) as u32,
                        _ => rng.below(0x8000) as u32,
                    };
                    *p = bank << 16 | off;
                }
                let mut at: Vec<usize> = ptrs.iter().flat_map(|&p| [pc(p), pc(p + 4), pc(p + 8)]).collect();
                at.sort();
                at.dedup();
                if at.len() == 9 {
                    break;
                }
            }
            ptrs
        } else {
            // three distinct triples of pointer bytes in the first 24 KB
            // (the first one may be at the very start)
            let base = if rng.chance(1, 6) { *rng.pick(&[0u32, 0, 1, 7]) } else { rng.us(0x20, 0x5000) as u32 };
            [base, base + rng.us(1, 3) as u32 + 9 * rng.us(1, 5) as u32, base + 0x80 + rng.us(0, 200) as u32]
        };
        let mut gaps = [rng.us(0, 0x300), rng.us(0, 0x300), rng.us(0, 0x300), rng.us(1, 0x300)];
        if rng.chance(1, 40) {
            // as large as real images, or larger
            gaps[rng.us(0, 2)] += if rng.chance(1, 2) { rng.us(0x100000, 0x3f0000) } else { rng.us(0x400000, 0x700000) };
        }
        let mut min_size = rng.us(0x8000, 0x20000);
        if rng.chance(1, 5) {
            // nothing after the last header
            min_size = 0;
            gaps[3] = 0;
        }
        let order = *rng.pick(&[[0usize, 1, 2], [0, 1, 2], [0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]]);
        RomCfg {
            ptrs,
            banks: [bank(rng, 0), bank(rng, 1), bank(rng, 2)],
            fill: rng.next() | 1,
            min_size,
            low_ptrs: rng.chance(1, 4),
            gaps,
            order,
        }
    }

    pub fn build(&self) -> Rom {
        let head = self.ptrs.iter().map(|&p| pc(p).max(pc(p + 4)).max(pc(p + 8)) + 1).max().unwrap().max(0x1000);
        let mut data: Vec<u8> = vec![0; head];
        let mut starts = [0usize; 3];
        for &i in &self.order {
            let bk = &self.banks[i];
            let n = data.len() + self.gaps[i];
            data.resize(n, 0);
            starts[i] = data.len();
            let mut put = |aram: usize, len: usize| {
                data.extend(&[len as u8, (len >> 8) as u8, aram as u8, (aram >> 8) as u8]);
                let n = data.len() + len;
                data.resize(n, 0);
            };
            for &(a, l) in &bk.pre {
                put(a, l);
            }
            put(0xd000, bk.main_len);
            put(bk.over_aram, bk.over_len);
            if bk.over_len == 0 {
                // it ends the chain
                continue;
            }
            for &(a, l) in &bk.post {
                put(a, l);
            }
            put(bk.end_aram, 0);
        }
        let n = (data.len() + self.gaps[3]).max(self.min_size);
        data.resize(n, 0);
        if self.fill != 0 {
            // random content everywhere, then the structure again on top
            let mut rng = Rng::new(self.fill);
            let zeroed = data.clone();
            for x in data.iter_mut() {
                *x = rng.next() as u8;
            }
            let mut at;
            for (i, bk) in self.banks.iter().enumerate() {
                at = starts[i];
                let mut lens: Vec<usize> = bk.pre.iter().map(|p| p.1).collect();
                lens.push(bk.main_len);
                lens.push(bk.over_len);
                if bk.over_len > 0 {
                    lens.extend(bk.post.iter().map(|p| p.1));
                    lens.push(0);
                }
                for l in lens {
                    data[at..at + 4].copy_from_slice(&zeroed[at..at + 4]);
                    at += 4 + l;
                }
            }
        }
        for i in 0..3 {
            let o = starts[i];
            let snes = ((o >> 15) << 16) | (o & 0x7fff) | if self.low_ptrs { 0 } else { 0x8000 };
            data[pc(self.ptrs[i])] = snes as u8;
            data[pc(self.ptrs[i] + 4)] = (snes >> 8) as u8;
            data[pc(self.ptrs[i] + 8)] = (snes >> 16) as u8;
        }
        Rom { data, ptrs: self.ptrs }
    }
}

pub fn bank_addrs_arg(p: [u32; 3]) -> String {
    format!("{:x},{:X},{:x}", p[0], p[1], p[2])
}
