use crate::*;
use crate::gen::*;
use sourisdb::types::binary::{huffman::{huffman, un_huffman}, lz::{lz, un_lz}, rle::{rle, un_rle}, BinaryCompression, BinaryData};
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};
use std::fmt::Debug;
use std::io::{Seek, SeekFrom};

fn cursor_ops(r: &mut Rng, lits: &Lits, len: usize, n: usize) -> Vec<(u8, i64)> {
    (0..n).map(|_| {
        let k = match r.below(9) {
            0 => 0, 1 => 1, 2 => len as i64, 3 => len as i64 + 1, 4 => *r.pick(&[i64::MAX, i64::MIN, -1, -2, i64::MAX - 1, u32::MAX as i64, i64::MIN + 1]),
            5 if !lits.ints.is_empty() => *r.pick(&lits.ints) as i64,
            6 => -(r.below(len + 3) as i64),
            _ => r.below(len + 3) as i64,
        };
        (r.below(19) as u8, k)
    }).collect()
}

fn run_cursor<E: Clone + PartialEq + Debug>(data: &Vec<E>, ops: &[(u8, i64)]) -> R {
    let mut c = Cursor::new(data);
    let mut pos = 0usize;
    let len = data.len();
    for (k, &(op, arg)) in ops.iter().enumerate() {
        let n = arg as usize;
        let fits = pos.checked_add(n).map_or(false, |e| e <= len);
        let at = pos;
        let e = |what: String| Err(format!("operation {k} ({op}, {arg}) at position {at} of {len}: {what}"));
        macro_rules! chk { ($got:expr, $want:expr) => {{ let (g, w) = ($got, $want); if g != w { return e(format!("got {g:?}, expected {w:?}")); } }} }
        macro_rules! exact { ($($n:literal),*) => {{ let k = n % 10; match k { $($n => { let fits = pos + $n <= len; let want = if fits { Some(data[pos..pos + $n].to_vec()) } else { None };
            chk!(c.peek_exact::<$n>().map(|x| x.to_vec()), want.clone()); chk!(c.pos(), pos); chk!(c.read_exact::<$n>().map(|x| x.to_vec()), want); if fits { pos += $n; } })* _ => {} } }} }
        match op {
            0 => { chk!(c.move_forwards(n), fits); if fits { pos += n; } }
            1 => { chk!(c.move_backwards(n), n <= pos); if n <= pos { pos -= n; } }
            2 | 3 => { chk!(c.read(n).map(<[E]>::to_vec), if fits { Some(data[pos..pos + n].to_vec()) } else { None }); if fits { pos += n; } }
            4 | 5 => exact!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9),
            6 | 7 => chk!(c.peek(n).map(<[E]>::to_vec), if fits { Some(data[pos..pos + n].to_vec()) } else { None }),
            8 => { chk!(c.read_remaining().to_vec(), data[pos..].to_vec()); pos = len; }
            9 => chk!(c.peek_remaining().to_vec(), data[pos..].to_vec()),
            10 | 11 => { c.set_pos(n); pos = n.min(len); }
            12 | 13 => { chk!(c.next().cloned(), data.get(pos).cloned()); if pos < len { pos += 1; } }
            14 => chk!(c.as_ref().to_vec(), data[pos..].to_vec()),
            _ => {
                let (base, off, sf) = match op { 15 => (0, n as i128, SeekFrom::Start(arg as u64)), 16 => (len, arg as i128, SeekFrom::End(arg)), _ => (pos, arg as i128, SeekFrom::Current(arg)) };
                let target = base as i128 + off;
                let ok = (0..=len as i128).contains(&target);
                chk!(c.seek(sf).ok(), if ok { Some(target as u64) } else { None });
                if ok { pos = target as usize; }
            }
        }
        chk!(c.pos(), pos);
        chk!(c.items_remaining(), len - pos);
        chk!(c.is_finished(), pos == len);
        chk!(c.as_ref().to_vec(), data[pos..].to_vec());
    }
    Ok(())
}

pub fn p05(t: &mut T) {
    t.sub("cursor against a model");
    // every single operation from every position of small data
    for len in 0..6usize { for pos in 0..=len { for op in 0..18u8 { for arg in (-8i64..9).chain([i64::MAX, i64::MIN, i64::MAX - pos as i64, -(pos as i64)]) {
        let data: Vec<u8> = (0..len as u8).collect();
        let ops = [(10u8, pos as i64), (op, arg), (12, 0)];
        t.case(|| format!("{data:?} {ops:?}"), || run_cursor(&data, &ops));
    } } } }
    while t.time_left() {
        let len = *t.rng.pick(&[0, 1, 2, 3, 7, 8, 9, 16, 17, 40, 255, 256, 257, 1000]);
        let n = 1 + t.rng.below(40);
        let ops = cursor_ops(&mut t.rng, &t.lits, len, n);
        if t.rng.flip() {
            let data: Vec<u8> = (0..len).map(|_| t.rng.next() as u8).collect();
            t.case(|| format!("{} bytes {ops:?}", data.len()), || run_cursor(&data, &ops));
        } else {
            let data: Vec<String> = (0..len).map(|k| k.to_string()).collect();
            t.case(|| format!("{} strings {ops:?}", data.len()), || run_cursor(&data, &ops));
        }
    }
}

// ---------------------------------------------------------------- bits
fn model_bytes(m: &[bool]) -> Vec<u8> { let mut v = vec![0u8; m.len().div_ceil(8)]; for (i, b) in m.iter().enumerate() { v[i / 8] |= (*b as u8) << (i % 8); } v }
fn check_bits(b: &Bits, m: &[bool]) -> R {
    ensure(b.len() == m.len() && b.is_empty() == m.is_empty(), || format!("len {} instead of {}", b.len(), m.len()))?;
    for (i, x) in m.iter().enumerate() { ensure(b[i] == *x, || format!("index {i}"))?; }
    let v: Vec<bool> = b.clone().into();
    ensure(v == m, || format!("as bools {v:?}"))?;
    let v: Vec<bool> = b.clone().into_iter().collect();
    ensure(v == m, || format!("iterated {v:?}"))?;
    ensure(b.to_string() == m.iter().map(|x| if *x { '1' } else { '0' }).collect::<String>(), || format!("displayed as {b}"))?;
    ensure(b.get_proper_bytes() == model_bytes(m), || format!("bytes {:?} instead of {:?}", b.get_proper_bytes(), model_bytes(m)))?;
    let rebuilt = Bits::from(m);
    ensure(rebuilt == *b && *b == rebuilt, || "not equal to the same sequence".into())?;
    ensure(crate::ints::hash(b) == crate::ints::hash(&rebuilt), || "hash differs from the same sequence".into())?;
    let rebuilt: Bits = m.iter().copied().collect();
    ensure(rebuilt == *b, || "not equal to the same sequence collected".into())?;
    let mut longer = b.clone(); longer.push(false);
    ensure(longer != *b, || "equal to a longer sequence".into())?;
    if !m.is_empty() { for k in [0, m.len() - 1, m.len() / 2] { let mut o = m.to_vec(); o[k] = !o[k]; ensure(Bits::from(&o) != *b, || format!("equal with bit {k} flipped"))?; } }
    let s = b.ser();
    let mut all = vec![9]; all.extend(&s); all.extend([0xFF, 0xFF]);
    let mut c = Cursor::new(&all); c.set_pos(1);
    let d = Bits::deser(&mut c).map_err(|e| format!("{s:?} -> {e}"))?;
    ensure(c.pos() == 1 + s.len(), || format!("wrote {} bytes, read {}", s.len(), c.pos() - 1))?;
    ensure(d == *b && d.len() == m.len(), || format!("{s:?} read back as {d}"))?;
    let v: Vec<bool> = d.into();
    ensure(v == m, || format!("{s:?} read back as {v:?}"))
}
fn run_bits(ops: &[(u8, Vec<bool>)]) -> R {
    let mut b = Bits::default();
    let mut m: Vec<bool> = vec![];
    for (k, (op, x)) in ops.iter().enumerate() {
        match op {
            0 => for y in x { b.push(*y); m.push(*y); },
            1 => for _ in 0..x.len() { let (g, w) = (b.pop(), m.pop()); ensure(g == w, || format!("operation {k}: popped {g:?} instead of {w:?}"))?; },
            2 => { b.push_many(Bits::from(x)); m.extend(x); }
            3 => { let o = b.push_into_new(x.len() % 2 == 0); check_bits(&b, &m).map_err(|e| format!("push_into_new changed self: {e}"))?; m.push(x.len() % 2 == 0); b = o; }
            4 => if x.len() > 20 { b.clear(); m.clear(); },
            5 => { let bytes = model_bytes(x); b = Bits::from_binary(bytes); m = x.clone(); m.resize(x.len().div_ceil(8) * 8, false); }
            6 => { let s = b.ser(); // with stray padding
                let mut s2 = s.clone(); if m.len() % 8 != 0 { *s2.last_mut().unwrap() |= 0xFFu8 << (m.len() % 8); }
                b = Bits::deser(&mut Cursor::new(&s2)).map_err(|e| e.to_string())?; }
            7 => { b = [b, Bits::from(x)].into_iter().collect(); m.extend(x); }
            _ => { let mut i = b.clone(); i.push_many(b.clone()); let mm = m.clone(); if m.len() < 3000 { b = i; m.extend(mm); } }
        }
        check_bits(&b, &m).map_err(|e| format!("after operation {k} (sequence of {}): {e}", m.len()))?;
    }
    Ok(())
}
pub fn p06(t: &mut T) {
    t.sub("bits against a model");
    for n in 0..=10usize { for x in 0..(1u32 << n) { let m: Vec<bool> = (0..n).map(|i| x >> i & 1 == 1).collect(); let ops = [(0u8, m.clone())]; t.case(|| format!("push {m:?}"), || run_bits(&ops)); } }
    for n in 0..34usize { for p in 0..=n { for v in [true, false] { let ops = [(0u8, vec![true; n]), (1, vec![true; p]), (0, vec![v; 3]), (6, vec![]), (0, vec![v; p]), (2, vec![!v; n])]; t.case(|| format!("{ops:?}"), || run_bits(&ops)); } } }
    let mut lens: Vec<usize> = vec![63, 64, 65, 239, 240, 241, 255, 256, 257, 1912, 1919, 1920, 1921, 2047, 2048, 2049, 65535, 65536, 65537];
    lens.extend(lit_lens(&t.lits, 1 << 21));
    for n in lens { let m: Vec<bool> = (0..n).map(|_| t.rng.flip()).collect(); t.case(|| format!("{n} random bits"), || check_bits(&Bits::from(&m), &m)); let m = vec![true; n]; t.case(|| format!("{n} set bits"), || check_bits(&Bits::from(&m), &m)); }
    while t.time_left() {
        let ops: Vec<(u8, Vec<bool>)> = (0..1 + t.rng.below(8)).map(|_| { let n = t.rng.below(40); let p = t.rng.below(4); (t.rng.below(9) as u8, (0..n).map(|_| if p == 0 { true } else { t.rng.flip() }).collect()) }).collect();
        t.case(|| format!("{ops:?}"), || run_bits(&ops));
    }
}

// ---------------------------------------------------------------- byte encodings
fn round<E: Debug>(input: &[u8], enc: impl Fn(&[u8]) -> Vec<u8>, dec: impl Fn(&mut Cursor<u8>) -> Result<Vec<u8>, E>) -> R {
    let e = enc(input);
    let mut all = vec![3, 3]; all.extend(&e); all.extend([1, 0xFF, 7]);
    let mut c = Cursor::new(&all); c.set_pos(2);
    let d = dec(&mut c).map_err(|x| format!("encoded to {}, decoding failed: {x:?}", show(&e)))?;
    ensure(d == input, || format!("encoded to {}, decoded to {}", show(&e), show(&d)))?;
    ensure(c.pos() == 2 + e.len(), || format!("encoded to {} bytes, decoding read {}", e.len(), c.pos() as i64 - 2))
}
fn byte_cases(t: &mut T, mut f: impl FnMut(&mut T, &[u8])) {
    for n in 0..=9usize { for x in 0..(1u32 << n) { let v: Vec<u8> = (0..n).map(|i| if x >> i & 1 == 1 { 255 } else { 0 }).collect(); f(t, &v); } }
    for n in 0..=5usize { for x in 0..4u32.pow(n as u32) { let mut x = x; let v: Vec<u8> = (0..n).map(|_| { let d = x % 4; x /= 4; [0u8, 1, 2, 239][d as usize] }).collect(); f(t, &v); } }
    for b in 0..=255u8 { f(t, &[b]); f(t, &[b, b]); f(t, &[b, b, 0]); }
    for a in 0..=255u8 { for b in [0u8, 1, 127, 128, 254, 255] { f(t, &[a, b]); } }
    let mut runs: Vec<usize> = vec![1, 2, 127, 128, 239, 240, 241, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 65535, 65536];
    runs.extend(lit_lens(&t.lits, 1 << 20));
    for &n in &runs { for b in [0u8, 1, 239, 255] { f(t, &vec![b; n]); let mut v = vec![b ^ 7]; v.extend(vec![b; n]); f(t, &v); v.push(b ^ 7); f(t, &v); v.extend(vec![b; n]); f(t, &v);
        let v: Vec<u8> = (0..n).map(|k| k as u8).collect(); f(t, &v); let v: Vec<u8> = (0..n).map(|k| (k % 2) as u8 + b % 3).collect(); f(t, &v); } }
    // skewed frequencies give the deepest huffman trees
    for depth in 2..=20usize { let mut v = vec![]; let (mut a, mut b) = (1usize, 1usize); for s in 0..depth { v.extend(vec![s as u8; a]); let c = a + b; a = b; b = c; } f(t, &v); v.reverse(); f(t, &v); }
    let strs = t.lits.strs.clone();
    for s in strs { f(t, s.as_bytes()); f(t, s.repeat(3).as_bytes()); }
    while t.time_left() { let v = rand_bytes(&mut t.rng, &t.lits.clone()); f(t, &v); }
}
pub fn p07(t: &mut T) {
    t.sub("run-length round trip");
    byte_cases(t, |t, v| t.case(|| show(v), || round(v, rle, un_rle)));
}
pub fn p09(t: &mut T) {
    t.sub("binary data");
    let f = |t: &mut T, v: &[u8]| t.case(|| show(v), || {
        round(v, rle, un_rle).map_err(|e| format!("rle: {e}"))?;
        round(v, lz, un_lz).map_err(|e| format!("lz: {e}"))?;
        round(v, huffman, un_huffman).map_err(|e| format!("huffman: {e}"))?;
        let b = BinaryData(v.to_vec());
        let (ct, s) = b.ser();
        let code = u8::from(ct);
        let plain = { let mut x = sourisdb::types::integer::Integer::usize(v.len()).ser().1; x.extend(v); x };
        for (n, l) in [("plain", plain.len()), ("rle", rle(v).len()), ("lz", lz(v).len()), ("huffman", huffman(v).len())] { ensure(s.len() <= l, || format!("stored in {} bytes ({ct:?}), but {n} takes {l}", s.len()))?; }
        let mut all = vec![1]; all.extend(&s); all.extend([2, 0xFF]);
        let mut c = Cursor::new(&all); c.set_pos(1);
        let ct2 = BinaryCompression::try_from(code).map_err(|e| e.to_string())?;
        let d = BinaryData::deser(ct2, &mut c).map_err(|e| format!("{ct:?} {}: {e}", show(&s)))?;
        ensure(d.0 == v, || format!("{ct:?} {} restored as {}", show(&s), show(&d.0)))?;
        ensure(c.pos() == 1 + s.len(), || format!("{ct:?}: wrote {} bytes, read {}", s.len(), c.pos() as i64 - 1))
    });
    f(t, &[]);
    byte_cases(t, f);
}

// ---------------------------------------------------------------- huffman
fn check_u8(corpus: &[u8], msgs: &[Vec<u8>]) -> R {
    let h = Huffman::<u8>::new(corpus.iter().copied()).map_err(|e| format!("no tree: {e}"))?;
    let s = h.ser();
    let mut all = vec![1]; all.extend(&s); all.extend([0, 1, 0]);
    let mut c = Cursor::new(&all); c.set_pos(1);
    let h2 = Huffman::<u8>::deser(&mut c).map_err(|e| format!("tree {}: {e}", show(&s)))?;
    ensure(c.pos() == 1 + s.len(), || format!("tree of {} bytes, read {}", s.len(), c.pos() as i64 - 1))?;
    ensure(h2.ser() == s, || "tree serialised differently again".into())?;
    for m in msgs {
        if m.iter().all(|x| corpus.contains(x)) {
            let b = h.encode(m.iter().copied()).map_err(|e| format!("{}: {e}", show(m)))?;
            let b2 = h2.encode(m.iter().copied()).map_err(|e| format!("{} with the deserialised tree: {e}", show(m)))?;
            ensure(b == b2, || "the deserialised tree encodes differently".into())?;
            ensure(m.is_empty() || b.len() >= m.len(), || format!("{} encoded to {b}", show(m)))?;
            for (n, hh) in [("", &h), ("deserialised ", &h2)] {
                let d = hh.decode(b.clone()).map_err(|e| format!("{}tree: {} as {b}: {e}", n, show(m)))?;
                ensure(d == *m, || format!("{}tree: {} as {b} decoded to {}", n, show(m), show(&d)))?;
                // stopping in the middle of a symbol
                if let Some(l) = m.last() {
                    let one = hh.encode([*l].into_iter()).map_err(|e| e.to_string())?.len();
                    let mut cut = b.clone();
                    for k in 1..one { let _ = cut.pop(); let g = hh.decode(cut.clone()); ensure(g.is_err(), || format!("{}tree: {} less {k} bits decoded to {:?}", n, show(m), g))?; }
                }
            }
        } else {
            ensure(h.encode(m.iter().copied()).is_err(), || format!("{} was encoded", show(m)))?;
            ensure(h2.encode(m.iter().copied()).is_err(), || format!("{} was encoded by the deserialised tree", show(m)))?;
        }
    }
    Ok(())
}
fn check_char(corpus: &str, msgs: &[String]) -> R {
    let h = Huffman::new_str(corpus).map_err(|e| format!("no tree: {e}"))?;
    let s = h.ser();
    let mut all = vec![1]; all.extend(&s); all.extend([0, 1, 0]);
    let mut c = Cursor::new(&all); c.set_pos(1);
    let h2 = Huffman::<char>::deser(&mut c).map_err(|e| format!("tree {}: {e}", show(&s)))?;
    ensure(c.pos() == 1 + s.len(), || format!("tree of {} bytes, read {}", s.len(), c.pos() as i64 - 1))?;
    ensure(h2.ser() == s, || "tree serialised differently again".into())?;
    for m in msgs {
        if m.chars().all(|x| corpus.contains(x)) {
            let b = h.encode_string(m).map_err(|e| format!("{m:?}: {e}"))?;
            let b2 = h2.encode_string(m).map_err(|e| format!("{m:?} with the deserialised tree: {e}"))?;
            ensure(b == b2, || "the deserialised tree encodes differently".into())?;
            for hh in [&h, &h2] {
                let d = hh.decode_string(b.clone()).map_err(|e| format!("{m:?} as {b}: {e}"))?;
                ensure(d == *m, || format!("{m:?} as {b} decoded to {d:?}"))?;
                if let Some(l) = m.chars().last() {
                    let one = hh.encode_string(l.to_string()).map_err(|e| e.to_string())?.len();
                    let mut cut = b.clone();
                    for k in 1..one { let _ = cut.pop(); let g = hh.decode_string(cut.clone()); ensure(g.is_err(), || format!("{m:?} less {k} bits decoded to {g:?}"))?; }
                }
            }
        } else {
            ensure(h.encode_string(m).is_err() && h2.encode_string(m).is_err(), || format!("{m:?} was encoded"))?;
        }
    }
    Ok(())
}
pub fn p08(t: &mut T) {
    t.sub("byte trees");
    for n in 1..=6usize { for x in 0..4u32.pow(n as u32) { let mut x = x; let v: Vec<u8> = (0..n).map(|_| { let d = x % 4; x /= 4; [0u8, 1, 2, 255][d as usize] }).collect();
        let msgs = [v.clone(), v.iter().rev().copied().collect(), vec![v[0]; 9], vec![], vec![0, 7], vec![0], vec![1, 2, 255, 0]]; t.case(|| format!("tree of {v:?}"), || check_u8(&v, &msgs)); } }
    for a in 0..=255u8 { t.case(|| format!("tree of {a}"), || check_u8(&[a], &[vec![a], vec![a; 7], vec![a; 8], vec![a; 17], vec![a.wrapping_add(1)]])); t.case(|| format!("tree of {a}, {}", a ^ 1), || check_u8(&[a, a ^ 1], &[vec![a], vec![a ^ 1; 7], vec![a, a ^ 1, a], vec![a ^ 2]])); }
    let all: Vec<u8> = (0..=255).collect();
    t.case(|| "tree of every byte".into(), || check_u8(&all, &[all.clone()]));
    for depth in 2..=22usize { let mut v = vec![]; let (mut a, mut b) = (1usize, 1usize); for s in 0..depth { v.extend(vec![s as u8; a]); let c = a + b; a = b; b = c; } let m: Vec<u8> = (0..depth as u8).collect(); t.case(|| format!("fibonacci frequencies of {depth} symbols"), || check_u8(&v, &[m.clone(), m.iter().rev().copied().collect(), vec![0; 3], vec![0], vec![1], vec![200]])); }
    for n in [200usize, 255, 256, 257, 300].into_iter().chain(lit_lens(&t.lits, 1 << 16)).filter(|n| *n > 0) { let v: Vec<u8> = (0..n).map(|k| (k * 7) as u8).collect(); t.case(|| format!("{n} bytes k*7"), || check_u8(&v, &[v.clone()])); }
    t.sub("character trees");
    let cs: Vec<char> = { let mut c: Vec<char> = ["\u{0}", "\u{1}", "a", "b", "\u{7f}", "\u{80}", "\u{ec}", "\u{ed}", "\u{ee}", "\u{ef}", "\u{f0}", "\u{fe}", "\u{ff}", "\u{100}", "\u{7ff}", "\u{d7ff}", "\u{e000}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{10fffe}", "\u{10ffff}", "🖖", "é"].iter().map(|s| s.chars().next().unwrap()).collect(); c.extend(lit_chars(&t.lits)); c };
    for &a in &cs { let s = a.to_string(); t.case(|| format!("tree of {a:?}"), || check_char(&s, &[s.clone(), s.repeat(9), "zz".into(), String::new()]));
        for &b in &cs { let s: String = [a, b, 'x', a].iter().collect(); let m: Vec<String> = vec![s.clone(), b.to_string(), [b, a, b].iter().collect(), "xx".into(), "q".into()]; t.case(|| format!("tree of {s:?}"), || check_char(&s, &m)); } }
    { let h = Huffman::new_with_english_frequencies(); let m = "The quick brown fox jumps over the lazy dog. 0123456789\n".to_string();
      t.case(|| "english tree".into(), || { let b = h.encode_string(&m).map_err(|e| e.to_string())?; let d = h.decode_string(b).map_err(|e| e.to_string())?; ensure(d == m, || d.clone())?; let s = h.ser(); let h2 = Huffman::<char>::deser(&mut Cursor::new(&s)).map_err(|e| e.to_string())?; ensure(h2.ser() == s, || "changed".into()) }); }
    while t.time_left() {
        if t.rng.flip() {
            t.sub("byte trees");
            let v = rand_bytes(&mut t.rng, &t.lits.clone()); if v.is_empty() || v.len() > 5000 { continue; }
            let n = t.rng.below(30);
            let msgs = vec![(0..n).map(|_| *t.rng.pick(&v)).collect(), (0..3).map(|_| t.rng.next() as u8).collect(), vec![v[0]]];
            t.case(|| format!("tree of {} messages {msgs:?}", show(&v)), || check_u8(&v, &msgs));
        } else {
            t.sub("character trees");
            let s = rand_string(&mut t.rng, &t.lits.clone()); if s.is_empty() { continue; }
            let ch: Vec<char> = s.chars().collect();
            let n = t.rng.below(20);
            let msgs = vec![(0..n).map(|_| *t.rng.pick(&ch)).collect(), rand_string(&mut t.rng, &t.lits.clone()), ch[0].to_string()];
            t.case(|| format!("tree of {s:?} messages {msgs:?}"), || check_char(&s, &msgs));
        }
    }
}
