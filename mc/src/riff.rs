//! An independent reader and writer of RIFF/WAVE files.

#[derive(Debug, Clone, PartialEq)]
pub struct Wav {
    pub riff_size: u32,
    pub format: u16,
    pub channels: u16,
    pub rate: u32,
    pub byte_rate: u32,
    pub block_align: u16,
    pub bits: u16,
    pub fmt_size: u32,
    pub data_at: usize,
    pub data: Vec<u8>,
}
fn u16_at(b: &[u8], i: usize) -> Option<u16> {
    Some(u16::from_le_bytes(b.get(i..i + 2)?.try_into().ok()?))
}
fn u32_at(b: &[u8], i: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?))
}
/// strict parse
pub fn parse(b: &[u8]) -> Result<Wav, String> {
    let e = |s: &str| s.to_string();
    if b.get(..4) != Some(b"RIFF") || b.get(8..12) != Some(b"WAVE") {
        return Err(e("no RIFF/WAVE header"));
    }
    let riff_size = u32_at(b, 4).ok_or(e("short"))?;
    if riff_size as usize != b.len() - 8 {
        return Err(format!("RIFF size {riff_size}, file has {} bytes after it", b.len() - 8));
    }
    let mut at = 12;
    let mut fmt = None;
    while at + 8 <= b.len() {
        let id = &b[at..at + 4];
        let n = u32_at(b, at + 4).unwrap() as usize;
        let body = b.get(at + 8..at + 8 + n).ok_or(format!("chunk at {at} runs past the end"))?;
        if id == b"fmt " {
            if n < 16 {
                return Err(e("fmt chunk too short"));
            }
            fmt = Some((n as u32, u16_at(body, 0).unwrap(), u16_at(body, 2).unwrap(), u32_at(body, 4).unwrap(), u32_at(body, 8).unwrap(), u16_at(body, 12).unwrap(), u16_at(body, 14).unwrap()));
        } else if id == b"data" {
            let f = fmt.ok_or(e("data before fmt"))?;
            return Ok(Wav { riff_size, fmt_size: f.0, format: f.1, channels: f.2, rate: f.3, byte_rate: f.4, block_align: f.5, bits: f.6, data_at: at + 8, data: body.to_vec() });
        }
        at += 8 + n + (n & 1);
    }
    Err(e("no data chunk"))
}
pub fn chunk(id: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend((body.len() as u32).to_le_bytes());
    v.extend(body);
    if body.len() % 2 == 1 {
        v.push(0);
    }
    v
}
pub fn fmt_chunk(size: usize, format: u16, channels: u16, rate: u32, bits: u16) -> Vec<u8> {
    let mut b = vec![];
    let block = channels.wrapping_mul(bits / 8);
    b.extend(format.to_le_bytes());
    b.extend(channels.to_le_bytes());
    b.extend(rate.to_le_bytes());
    b.extend(rate.wrapping_mul(block as u32).to_le_bytes());
    b.extend(block.to_le_bytes());
    b.extend(bits.to_le_bytes());
    b.resize(size, 0);
    if size >= 18 {
        b[16] = (size - 18) as u8;
    }
    chunk(b"fmt ", &b)
}
pub fn file(chunks: &[Vec<u8>]) -> Vec<u8> {
    let body: usize = chunks.iter().map(|c| c.len()).sum();
    let mut v = b"RIFF".to_vec();
    v.extend((body as u32 + 4).to_le_bytes());
    v.extend(b"WAVE");
    for c in chunks {
        v.extend(c);
    }
    v
}
pub fn pcm16(s: &[i16]) -> Vec<u8> {
    s.iter().flat_map(|x| x.to_le_bytes()).collect()
}
