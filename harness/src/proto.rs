//! Minimal protobuf reader for ibc MsgTransfer.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Transfer {
    pub source_port: String,
    pub source_channel: String,
    pub denom: String,
    pub amount: String,
    pub sender: String,
    pub receiver: String,
    pub timeout_revision: u64,
    pub timeout_height: u64,
    pub timeout_timestamp: u64,
    pub memo: String,
}
fn varint(b: &[u8], i: &mut usize) -> Result<u64, String> {
    let mut r = 0u64;
    let mut s = 0;
    loop {
        let x = *b.get(*i).ok_or("eof")?;
        *i += 1;
        r |= ((x & 0x7f) as u64) << s;
        if x & 0x80 == 0 {
            return Ok(r);
        }
        s += 7;
        if s > 63 {
            return Err("varint".into());
        }
    }
}
fn fields(b: &[u8]) -> Result<Vec<(u64, u64, Vec<u8>)>, String> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let tag = varint(b, &mut i)?;
        match tag & 7 {
            0 => {
                let v = varint(b, &mut i)?;
                out.push((tag >> 3, v, vec![]));
            }
            2 => {
                let n = varint(b, &mut i)? as usize;
                let s = b.get(i..i + n).ok_or("eof")?.to_vec();
                i += n;
                out.push((tag >> 3, 0, s));
            }
            w => return Err(format!("wire type {w}")),
        }
    }
    Ok(out)
}
pub fn decode_transfer(b: &[u8]) -> Result<Transfer, String> {
    let mut t = Transfer::default();
    let s = |v: &[u8]| String::from_utf8(v.to_vec()).map_err(|_| "utf8".to_string());
    for (n, v, d) in fields(b)? {
        match n {
            1 => t.source_port = s(&d)?,
            2 => t.source_channel = s(&d)?,
            3 => {
                for (m, _, e) in fields(&d)? {
                    match m {
                        1 => t.denom = s(&e)?,
                        2 => t.amount = s(&e)?,
                        _ => {}
                    }
                }
            }
            4 => t.sender = s(&d)?,
            5 => t.receiver = s(&d)?,
            6 => {
                for (m, x, _) in fields(&d)? {
                    match m {
                        1 => t.timeout_revision = x,
                        2 => t.timeout_height = x,
                        _ => {}
                    }
                }
            }
            7 => t.timeout_timestamp = v,
            8 => t.memo = s(&d)?,
            _ => {}
        }
    }
    Ok(t)
}
