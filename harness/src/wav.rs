//! An independent wav writer.

pub fn fmt_chunk(tag: u16, ch: u16, sr: u32, bits: u16, ext: bool) -> Vec<u8> {
    let align = (ch as u32 * bits as u32 / 8) as u16;
    let mut v = vec![];
    v.extend(if ext { 0xFFFEu16 } else { tag }.to_le_bytes());
    v.extend(ch.to_le_bytes());
    v.extend(sr.to_le_bytes());
    v.extend((sr.wrapping_mul(align as u32)).to_le_bytes());
    v.extend(align.to_le_bytes());
    v.extend(bits.to_le_bytes());
    if ext {
        v.extend(22u16.to_le_bytes());
        v.extend(bits.to_le_bytes());
        v.extend(0u32.to_le_bytes());
        v.extend(tag.to_le_bytes());
        v.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
    }
    v
}

pub fn chunk(id: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.extend((body.len() as u32).to_le_bytes());
    v.extend(body);
    if body.len() % 2 == 1 {
        v.push(0);
    }
    v
}

pub fn riff(chunks: &[Vec<u8>]) -> Vec<u8> {
    let body: Vec<u8> = chunks.concat();
    let mut v = b"RIFF".to_vec();
    v.extend((body.len() as u32 + 4).to_le_bytes());
    v.extend(b"WAVE");
    v.extend(body);
    v
}

pub fn pcm16(sr: u32, ch: u16, interleaved: &[i16]) -> Vec<u8> {
    let data: Vec<u8> = interleaved.iter().flat_map(|s| s.to_le_bytes()).collect();
    riff(&[chunk(b"fmt ", &fmt_chunk(1, ch, sr, 16, false)), chunk(b"data", &data)])
}

pub fn to_i16(x: &[f64]) -> Vec<i16> {
    x.iter().map(|v| (v * 32767.0).round().clamp(-32768.0, 32767.0) as i16).collect()
}
