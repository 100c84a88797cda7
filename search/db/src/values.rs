use crate::gen::*;
use crate::ints::{hash, interesting, N};
use crate::*;
use sourisdb::chrono::{NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use sourisdb::chrono_tz::{Tz, TZ_VARIANTS};
use sourisdb::hashbrown::HashMap;
use sourisdb::serde_json::{json, Value as SJ};
use sourisdb::store::Store;
use sourisdb::types::binary::{huffman::un_huffman, lz::un_lz, rle::un_rle, BinaryCompression, BinaryData};
use sourisdb::types::imaginary::Imaginary;
use sourisdb::types::integer::{Integer, SignedState};
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};
use sourisdb::values::Value;
use std::net::{Ipv4Addr, Ipv6Addr};

type H = Huffman<char>;

fn round(v: &Value, h: Option<&H>, junk: &[u8]) -> R {
    let s = v.ser(h);
    let mut all = vec![0x31]; all.extend(&s); all.extend(junk);
    let mut c = Cursor::new(&all); c.set_pos(1);
    let d = Value::deser(&mut c, h).map_err(|e| format!("serialised to {}, reading failed: {e}", show(&s)))?;
    ensure(same(v, &d), || format!("serialised to {}, read back as {d:?}", show(&s)))?;
    ensure(c.pos() == 1 + s.len(), || format!("wrote {} bytes, read {}", s.len(), c.pos() as i64 - 1))?;
    ensure(v.ser(h).len() == s.len(), || "length differs the second time".into())
}
fn one(t: &mut T, v: Value) { let j = t.rng.next().to_le_bytes(); t.case(|| format!("{v:?} followed by {j:?}"), || round(&v, None, &j)); }

pub fn p10(t: &mut T) {
    t.sub("scalar round trip");
    for b in [true, false] { one(t, Value::Boolean(b)); }
    one(t, Value::Null(()));
    for c in (0..0x3000u32).chain((0x3000..0x11_0000).step_by(7)).chain(0xD700..0xE100).chain(0x10_FF00..0x11_0000).chain(0xFF00..0x1_0100) { if let Some(c) = char::from_u32(c) { one(t, Value::Character(c)); } }
    for c in lit_chars(&t.lits) { one(t, Value::Character(c)); }
    let nums = interesting(t);
    for n in &nums { for v in N::all_of(*n) { one(t, Value::Integer(v.int())); } }
    for x in 0..=u16::MAX { one(t, Value::Integer(x.into())); one(t, Value::Integer((x as i16).into())); }
    let small: Vec<Integer> = nums.iter().step_by(37).flat_map(|n| N::all_of(*n)).map(N::int).collect();
    for k in 0..small.len() { for l in (k % 7..small.len()).step_by(7) { one(t, Value::Imaginary(Imaginary::CartesianForm { real: small[k], imaginary: small[l] })); } }
    for y in (-262142..=262141).step_by(61).chain(-300..300).chain(1800..2200) { one(t, Value::Timestamp(NaiveDate::from_ymd_opt(y, 2, 28).unwrap().and_hms_opt(23, 59, 59).unwrap())); }
    { let d = NaiveDate::from_ymd_opt(2024, 2, 29).unwrap();
      for h in 0..24 { for m in 0..60 { one(t, Value::Timestamp(d.and_hms_opt(h, m, (h + m) % 60).unwrap())); } }
      for k in 0..366 { one(t, Value::Timestamp((NaiveDate::from_yo_opt(2024, k + 1).unwrap()).and_hms_opt(1, 2, 3).unwrap())); }
      for s in 0..60 { for ns in [0, 1, 239, 240, 255, 256, 65535, 65536, 16777215, 16777216, 999_999_999, 1_000_000_000, 1_000_000_001, 1_500_000_000, 1_999_999_999] { one(t, Value::Timestamp(NaiveDateTime::new(d, NaiveTime::from_hms_opt(5, 6, s).unwrap().with_nanosecond(ns).unwrap()))); } } }
    for b in 0..=255u8 { for k in 0..4 { let mut o = [1u8, 2, 3, 4]; o[k] = b; one(t, Value::Ipv4Addr(Ipv4Addr::from(o))); } for k in 0..16 { let mut o: [u8; 16] = std::array::from_fn(|i| i as u8 + 1); o[k] = b; one(t, Value::Ipv6Addr(Ipv6Addr::from(o))); } }
    for k in 0..64 { for x in [1u64 << k, !(1 << k), u64::MAX >> k] { one(t, Value::DoubleFloat(f64::from_bits(x))); one(t, Value::SingleFloat(f32::from_bits(x as u32))); one(t, Value::Imaginary(Imaginary::PolarForm { modulus: f64::from_bits(x), argument: f64::from_bits(!x) })); } }
    let l = t.lits.clone();
    for f in l.floats.iter().copied().chain(l.ints.iter().map(|x| *x as f64)) { one(t, Value::DoubleFloat(f)); one(t, Value::SingleFloat(f as f32)); }
    while t.time_left() { let v = rand_scalar(&mut t.rng, &l); one(t, v); }
}

fn texts(v: &Value, out: &mut String) {
    match v { Value::String(s) => out.push_str(s), Value::JSON(j) => out.push_str(&j.to_string()), Value::Timezone(z) => out.push_str(z.name()), Value::Array(a) => a.iter().for_each(|x| texts(x, out)), Value::Map(m) => m.iter().for_each(|(k, x)| { out.push_str(k); texts(x, out) }), _ => {} }
}
fn uses_text(v: &Value) -> bool { match v { Value::String(_) | Value::JSON(_) | Value::Timezone(_) => true, Value::Array(a) => a.iter().any(uses_text), Value::Map(m) => !m.is_empty(), _ => false } }

fn shapes(t: &mut T) -> Vec<Value> {
    let mut v = vec![];
    let s = |x: &str| Value::String(x.into());
    let mut lens: Vec<usize> = (0..20).collect(); lens.extend([127, 128, 239, 240, 241, 255, 256, 257, 1000]); lens.extend(lit_lens(&t.lits, 20000));
    for n in lens {
        v.push(Value::Array(vec![Value::Null(()); n]));
        v.push(Value::Array((0..n).map(|k| Value::Integer((k as i32 - 5).into())).collect()));
        v.push(Value::Map((0..n).map(|k| (format!("{k}"), Value::Integer(k.into()))).collect()));
        v.push(Value::Map((0..n).map(|k| ("x".repeat(k.min(300)), s(&"y".repeat(k.min(9))))).collect()));
        v.push(s(&"a".repeat(n))); v.push(s(&"é🖖".repeat(n)));
        v.push(Value::Array(vec![Value::Array(vec![]); n.min(300)])); v.push(Value::Array(vec![Value::Map(HashMap::new()); n.min(300)]));
        v.push(Value::Array(vec![Value::Array(vec![s("q"); n.min(20)]); n.min(20)]));
        v.push(Value::Binary(BinaryData(vec![7; n]))); v.push(Value::Binary(BinaryData((0..n).map(|k| (k * 31) as u8).collect())));
        v.push(Value::JSON(json!(vec![1; n.min(500)])));
    }
    for d in [1usize, 2, 3, 7, 8, 50, 60, 84, 99, 100] {
        let mut a = Value::Integer(1.into()); let mut m = s("deep"); let mut x = Value::Null(()); let mut e = Value::Array(vec![]); let mut w = Value::Map(HashMap::new());
        let mut j = json!(1); let mut j2 = json!("a");
        for k in 0..d { a = Value::Array(vec![a]); m = Value::Map([(format!("k{k}"), m)].into_iter().collect()); x = if k % 2 == 0 { Value::Array(vec![Value::Boolean(true), x, s("z")]) } else { Value::Map([("p".to_string(), x), (String::new(), Value::Array(vec![]))].into_iter().collect()) }; e = Value::Array(vec![e, Value::Null(())]); w = Value::Map([("w".to_string(), w)].into_iter().collect()); j = json!([j]); j2 = json!({"k": j2, "l": 1}); }
        v.extend([a, m, x, e, w, Value::JSON(j), Value::JSON(j2)]);
    }
    for z in TZ_VARIANTS.iter() { v.push(Value::Timezone(*z)); }
    for j in [json!(null), json!(true), json!(1), json!(-1), json!(1.5), json!(""), json!([]), json!({}), json!({"": {"a": [1, 2.5, "x\n\"\\\u{0}"]}, "souris_type": 3}), json!(u64::MAX), json!(i64::MIN)] { v.push(Value::JSON(j.clone())); v.push(Value::Array(vec![Value::JSON(j.clone()), Value::JSON(j.clone()), s("after")])); v.push(Value::Map([("j".to_string(), Value::JSON(j)), ("tz".into(), Value::Timezone(Tz::Europe__London))].into_iter().collect())); }
    for q in ["", "a", "aa", "ab", "\u{0}", "JSON", "souris_type", "\u{10ffff}"] { v.push(s(q)); v.push(Value::Map([(q.to_string(), s(q))].into_iter().collect())); v.push(Value::Array(vec![s(q), Value::Null(()), s(q)])); }
    for q in t.lits.strs.clone() { v.push(s(&q)); v.push(Value::Map([(q.clone(), s(&q)), ("b".into(), Value::Null(()))].into_iter().collect())); }
    v
}
/// lengths around the powers of two, with a literal or two of the code
fn big_lens(t: &T) -> Vec<usize> {
    let mut v = vec![4095, 4096, 16_383, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 131_072, 262_145];
    v.extend(lit_lens(&t.lits, 3_000_000).into_iter().filter(|n| *n > 20_000)); v.sort(); v.dedup(); v
}
/// (what it is, the value)
fn bigs(t: &mut T) -> Vec<(String, Value)> {
    let mut v = vec![];
    for n in big_lens(t) {
        v.push((format!("array of {n} nulls"), Value::Array(vec![Value::Null(()); n])));
        if n < 140_000 { v.push((format!("array of {n} different integers"), Value::Array((0..n).map(|k| Value::Integer((k as i64 * 7919 - 5).into())).collect()))); }
        if n < 140_000 { v.push((format!("map of {n} numbered keys"), Value::Map((0..n).map(|k| (k.to_string(), Value::Boolean(k % 2 == 0))).collect()))); }
        v.push((format!("text of {n} times a"), Value::String("a".repeat(n))));
        v.push((format!("text of {n} digits, letters and more"), Value::String((0..n).map(|k| char::from_u32(40 + (k as u32).wrapping_mul(2654435761) % 500).unwrap()).collect())));
        v.push((format!("{n} zero bytes"), Value::Binary(BinaryData(vec![0; n]))));
        v.push((format!("{n} bytes k*2654435761>>24"), Value::Binary(BinaryData((0..n).map(|k| ((k as u32).wrapping_mul(2654435761) >> 24) as u8).collect()))));
    }
    for n in [1_100_000usize, 4_300_000] { let mut r = Rng(n as u64); v.push((format!("{n} random bytes"), Value::Binary(BinaryData((0..n).map(|_| (r.next() >> 24) as u8).collect())))); }
    v.push(("array of 1200000 integers".into(), Value::Array((0..1_200_000u32).map(|k| Value::Integer(k.into())).collect())));
    v.push(("5000000 zero bytes".into(), Value::Binary(BinaryData(vec![0; 5_000_000]))));
    v.push(("json array of 70000 numbers".into(), Value::JSON(json!((0..70_000).collect::<Vec<_>>()))));
    v
}
fn check_p11(v: &Value, other: &str, junk: &[u8]) -> R {
    round(v, None, junk)?;
    let mut txt = String::new(); texts(v, &mut txt);
    let mut full = txt.clone(); full.push_str(other);
    let half: String = txt.chars().take(txt.chars().count() / 2).collect();
    for (n, c) in [("tree of its text", &txt), ("tree of its and other text", &full), ("tree of other text", &other.to_string()), ("tree of half its text", &half)] {
        let Ok(h) = H::new_str(c) else { continue };
        round(v, Some(&h), junk).map_err(|e| format!("with a {n} {c:?}: {e}"))?;
        if n == "tree of its text" && uses_text(v) {
            let s = v.ser(Some(&h));
            ensure(Value::deser(&mut Cursor::new(&s), None).is_err(), || format!("huffman encoded text {} was accepted without a tree", show(&s)))?;
        }
    }
    Ok(())
}
pub fn p11(t: &mut T) {
    t.sub("container round trip");
    let sh = shapes(t);
    t.budget(25.0);
    for v in &sh { t.case(|| format!("{v:?}"), || check_p11(v, "etaoin shrdlu", &[0x90, 1, 2])); }
    t.budget(30.0);
    let tree = H::new_str("a0123456789").ok();
    for (n, v) in bigs(t) { t.case(|| n.clone(), || { round(&v, None, &[0x90, 1, 2])?; if matches!(v, Value::Map(_) | Value::String(_)) { round(&v, tree.as_ref(), &[7])?; } Ok(()) }); }
    t.budget(10.0);
    let l = t.lits.clone();
    while t.time_left() {
        t.sub("container round trip");
        let v = rand_value(&mut t.rng, &l, 4); let o = rand_string(&mut t.rng, &l); let j = t.rng.next().to_le_bytes();
        t.case(|| format!("{v:?} other text {o:?}"), || check_p11(&v, &o, &j));
        t.sub("one after another");
        let vs: Vec<Value> = (0..4).map(|_| rand_value(&mut t.rng, &l, 2)).collect();
        t.case(|| format!("{vs:?} tree of {o:?}"), || {
            let h = H::new_str(&o).ok();
            let mut all = vec![]; for v in &vs { all.extend(v.ser(h.as_ref())); }
            let mut c = Cursor::new(&all);
            for v in &vs { let d = Value::deser(&mut c, h.as_ref()).map_err(|e| e.to_string())?; ensure(same(v, &d), || format!("{v:?} read back as {d:?}"))?; }
            ensure(c.is_finished(), || "bytes left over".into())
        });
    }
}

fn check_store(m: &HashMap<String, Value>) -> R {
    let s = Store::new(m.clone());
    let b = s.ser();
    ensure(b.starts_with(b"SOURISDB"), || format!("starts with {:?}", &b[..8.min(b.len())]))?;
    let d = Store::deser(&b).map_err(|e| format!("{}: {e}", show(&b)))?;
    ensure(same(&Value::Map((*d).clone()), &Value::Map(m.clone())), || format!("{} read back as {:?}", show(&b), *d))?;
    for k in 0..8 { let mut x = b.clone(); x[k] ^= 1 << (k % 7); ensure(Store::deser(&x).is_err(), || format!("accepted with byte {k} of SOURISDB changed"))?; let x = b[..k].to_vec(); ensure(Store::deser(&x).is_err(), || format!("accepted {x:?}"))?; }
    Ok(())
}
pub fn p12(t: &mut T) {
    t.sub("store round trip");
    let none: HashMap<String, Value> = HashMap::new();
    t.case(|| "empty store".into(), || check_store(&none));
    let sh = shapes(t);
    t.budget(30.0);
    for v in &sh {
        for k in ["", "a", "key", "JSON"] { let m: HashMap<String, Value> = [(k.to_string(), v.clone())].into_iter().collect(); t.case(|| format!("{m:?}"), || check_store(&m)); }
        if let Value::Map(m) = v { t.case(|| format!("{m:?}"), || check_store(m)); }
        if let Value::String(s) = v { let m: HashMap<String, Value> = [(s.clone(), v.clone())].into_iter().collect(); t.case(|| format!("{m:?}"), || check_store(&m)); }
    }
    t.budget(30.0);
    for (n, v) in bigs(t) { let m: HashMap<String, Value> = match v { Value::Map(m) => m, v => [("k".to_string(), v)].into_iter().collect() }; t.case(|| format!("store with a {n}"), || check_store(&m)); }
    t.budget(10.0);
    let l = t.lits.clone();
    while t.time_left() { let n = list_len(&mut t.rng); let m: HashMap<String, Value> = (0..n).map(|_| (rand_string(&mut t.rng, &l), rand_value(&mut t.rng, &l, 3))).collect(); t.case(|| format!("{m:?}"), || check_store(&m)); }
}

// ------------------------------------------------------------------ malformed bytes
fn feed(b: &[u8], tree: &H) {
    let v = b.to_vec();
    let ss = [SignedState::Unsigned, SignedState::SignedPositive, SignedState::SignedNegative];
    macro_rules! go { ($f:expr) => {{ let mut c = Cursor::new(&v); let r = $f(&mut c); if c.pos() > v.len() { panic!("cursor at {} of {}", c.pos(), v.len()); } r }} }
    let _ = Store::deser(b);
    for h in [None, Some(tree)] { if let Ok(x) = go!(|c: &mut Cursor<u8>| Value::deser(c, h)) { let _ = x.ser(None); let _ = format!("{}", x == x); let _ = hash(&x); } }
    for s in ss { if let Ok(i) = go!(|c: &mut Cursor<u8>| Integer::deser(s, c)) { let _ = u8::try_from(i); let _ = i8::try_from(i); let _ = i128::try_from(i); let _ = u128::try_from(i); let _ = i32::try_from(i); } }
    for m in 0..16 { let _ = go!(|c: &mut Cursor<u8>| Imaginary::deser(m, c)); }
    for m in [16u8, 31, 128, 255] { let _ = go!(|c: &mut Cursor<u8>| Imaginary::deser(m, c)); }
    if let Ok(x) = go!(|c: &mut Cursor<u8>| Bits::deser(c)) { let _ = x.to_string(); let _: Vec<bool> = x.clone().into(); let _ = tree.decode_string(x); }
    let _ = go!(|c: &mut Cursor<u8>| un_rle(c)); let _ = go!(|c: &mut Cursor<u8>| un_lz(c)); let _ = go!(|c: &mut Cursor<u8>| un_huffman(c));
    for k in 0..4u8 { if let Ok(ct) = BinaryCompression::try_from(k) { let _ = go!(|c: &mut Cursor<u8>| BinaryData::deser(ct, c)); } }
    if let Ok(h) = go!(|c: &mut Cursor<u8>| Huffman::<u8>::deser(c)) { let bits = Bits::from_binary(v.clone()); let _ = h.decode(bits); let _ = h.ser(); let _ = h.encode(v.iter().copied()); }
    if let Ok(h) = go!(|c: &mut Cursor<u8>| Huffman::<char>::deser(c)) { let bits = Bits::from_binary(v.clone()); let _ = h.decode_string(bits); let _ = h.ser(); let _ = h.encode_string("abc"); }
}
fn intb(n: u128) -> Vec<u8> { Integer::from(n).ser().1 }
pub fn p13(t: &mut T) {
    t.sub("malformed bytes");
    let tree = H::new_str("the quick brown fox jumps over it 0123456789\",:{}[]").unwrap();
    let mut go = |t: &mut T, b: Vec<u8>| t.case(|| format!("bytes {b:?}"), || { feed(&b, &tree); Ok(()) });
    go(t, vec![]);
    for a in 0..=255u8 { go(t, vec![a]); for b in 0..=255u8 { go(t, vec![a, b]); } }
    for a in 0..=255u8 { for n in [3usize, 17, 300] { go(t, vec![a; n]); } for x in [0u8, 1, 0x7f, 0x80, 0xEF, 0xF0, 0xFF] { let mut v = vec![a]; v.extend([x; 20]); go(t, v); } }
    // every primitive with every integer width and cut
    let big: Vec<u128> = vec![0, 1, 7, 8, 9, 239, 240, 255, 256, 65535, u32::MAX as u128, u32::MAX as u128 + 1, i64::MAX as u128, u64::MAX as u128 - 7, u64::MAX as u128 - 6, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX];
    let bigs: Vec<u128> = big.iter().copied().chain(t.lits.ints.iter().filter(|x| **x >= 0).map(|x| *x as u128)).collect();
    for a in 0..=255u8 { for n in &bigs { let mut v = vec![a]; v.extend(intb(*n)); go(t, v.clone()); v.extend(intb(*n)); v.extend([0x90; 3]); go(t, v.clone()); v.extend(intb(1)); v.extend([1, 1, 1, 1]); go(t, v); } }
    for h in 0..=255u8 { for n in &bigs { let mut v = b"SOURISDB".to_vec(); v.push(h); v.extend(intb(*n)); go(t, v.clone()); v.extend(intb(*n)); v.extend([1, 5, 0, 3]); go(t, v); } }
    // a plain store around arbitrary contents
    let wrap = |inner: Vec<u8>, huff: bool| { let mut v = b"SOURISDB".to_vec(); v.push(if huff { 128 } else { 0 }); v.extend(intb(inner.len() as u128)); v.extend(inner); v };
    for n in [1usize, 50, 126, 127, 128, 254, 255, 256, 257, 258, 300, 1000, 100_000] {
        for unit in [vec![0xB2u8], vec![0xB4], vec![0xB1, 1], vec![0x82, 0x10, 0], vec![0x70], vec![0xC0], vec![0x82, 0x10, 1, b'a'], vec![0], vec![0, 1, 65], vec![0xB2, 0x82, 0x10, 0], vec![0xB3, 0xB2]] {
            let mut v: Vec<u8> = unit.repeat(n); go(t, v.clone()); go(t, wrap(v.clone(), false)); go(t, wrap(v.clone(), true));
            let mut u = vec![2]; u.extend(&v); go(t, u);
            v.push(0x90); go(t, v.clone()); v.extend([0x90; 300]); go(t, v.clone()); v.extend([1, 65].repeat(n)); go(t, v.clone());
            let mut w = vec![0x82, 0x10, 0]; w.extend(&v); go(t, wrap(w, false));
        }
    }
    let sh = shapes(t);
    let l = t.lits.clone();
    t.budget(20.0);
    let mut k = 0;
    while t.time_left() {
        // something valid, then damaged
        k += 1;
        let v = if k % 3 == 0 { t.rng.pick(&sh).clone() } else { rand_value(&mut t.rng, &l, 3) };
        let mut b = match t.rng.below(6) {
            0 => Store::new([("k".to_string(), v)]).ser(), 1 => v.ser(Some(&tree)), 2 => { let mut s = String::new(); texts(&v, &mut s); H::new_str(&s).map(|h| { let mut x = h.ser(); x.extend(v.ser(Some(&h))); wrap(x, true) }).unwrap_or_default() }
            3 => wrap(v.ser(None), false), 4 => (0..t.rng.below(60)).map(|_| t.rng.next() as u8).collect(), _ => v.ser(None),
        };
        if b.len() > 3000 { continue; }
        for _ in 0..1 + t.rng.below(4) {
            if b.is_empty() { break; }
            let p = if t.rng.flip() { t.rng.below(b.len()) } else { t.rng.below(b.len().min(14)) };
            match t.rng.below(7) { 0 => b[p] = t.rng.next() as u8, 1 => b[p] ^= 1 << t.rng.below(8), 2 => b.truncate(p), 3 => { b.remove(p); } 4 => b.insert(p, *t.rng.pick(&[0u8, 1, 2, 0x0F, 0xB1, 0x81, 0xF0, 0xF7, 0xFF])), 5 => { let e = (p + t.rng.below(12)).min(b.len()); let x = b[p..e].to_vec(); for y in x { b.insert(p, y); } } _ => { let x = intb(*t.rng.pick(&bigs)); b.splice(p..p + 1, x); } }
        }
        go(t, b);
    }
}

// ------------------------------------------------------------------ JSON
fn rand_jsonable(r: &mut Rng, l: &Lits, d: usize) -> Value {
    let i64s = |r: &mut Rng| -> Integer { match r.below(4) { 0 => (r.next() as i64 >> r.below(64)).into(), 1 => (r.next() >> r.below(64)).into(), 2 => (*r.pick(&[0i64, -1, 1, i64::MIN, i64::MAX])).into(), _ => Integer::from(*r.pick(&[0u64, u64::MAX, 1 << 63, (1 << 63) - 1])) } };
    let fin = |r: &mut Rng| loop { let f = rand_f64(r); if f.is_finite() { break f; } };
    match r.below(if d == 0 { 11 } else { 14 }) {
        0 => Value::Null(()), 1 => Value::Boolean(r.flip()), 2 => Value::String(rand_string(r, l)), 3 => Value::DoubleFloat(fin(r)), 4 => Value::Integer(i64s(r)),
        5 => if r.flip() { Value::Imaginary(Imaginary::CartesianForm { real: i64s(r), imaginary: i64s(r) }) } else { Value::Imaginary(Imaginary::PolarForm { modulus: fin(r), argument: fin(r) }) },
        6 => Value::Timestamp(rand_ts(r, l, false)), 7 => Value::Timezone(rand_tz(r)), 8 => Value::Binary(BinaryData(rand_bytes(r, l))),
        9 => Value::Ipv4Addr(Ipv4Addr::from(r.next() as u32)), 10 => Value::Ipv6Addr(rand_ip6(r)),
        11 | 12 => { let n = list_len(r); Value::Array((0..n).map(|_| rand_jsonable(r, l, d - 1)).collect()) }
        _ => { let n = list_len(r); Value::Map((0..n).map(|_| (loop { let s = rand_string(r, l); if s != "souris_type" { break s; } }, rand_jsonable(r, l, d - 1))).collect()) }
    }
}
fn check_json(v: &Value) -> R {
    let j = v.clone().convert_to_json(true).ok_or("not converted")?;
    let b = Value::convert_from_json(j.clone()).map_err(|e| format!("{j} -> {e}"))?;
    ensure(same(v, &b) || *v == b, || format!("{j} came back as {b:?}"))?;
    ensure(*v == b, || format!("{j} came back as {b:?}, which is not equal"))
}
pub fn p14(t: &mut T) {
    t.sub("typed JSON");
    let mut pool = vec![Value::Null(()), Value::Boolean(true), Value::Boolean(false), Value::DoubleFloat(0.0), Value::DoubleFloat(-0.0), Value::DoubleFloat(1.0), Value::DoubleFloat(1e18), Value::DoubleFloat(2f64.powi(63)), Value::DoubleFloat(-2f64.powi(63)), Value::DoubleFloat(2f64.powi(64)), Value::Array(vec![]), Value::Map(HashMap::new()), Value::Binary(BinaryData(vec![]))];
    for n in interesting(t) { for v in N::all_of(n) {
        let i = v.int(); let fits = n.as_u128().map_or(false, |x| x <= u64::MAX as u128) || n.as_i128().map_or(false, |x| i64::try_from(x).is_ok());
        if fits { pool.push(Value::Integer(i)); pool.push(Value::Imaginary(Imaginary::CartesianForm { real: i, imaginary: 3.into() })); pool.push(Value::Imaginary(Imaginary::CartesianForm { real: (-3).into(), imaginary: i })); }
        else { for x in [Value::Integer(i), Value::Array(vec![Value::Null(()), Value::Integer(i)]), Value::Map([("a".to_string(), Value::Integer(i))].into_iter().collect()), Value::Imaginary(Imaginary::CartesianForm { real: i, imaginary: 1.into() }), Value::Imaginary(Imaginary::CartesianForm { real: 1.into(), imaginary: i })] { t.case(|| format!("{x:?}"), || { let j = x.clone().convert_to_json(true); ensure(j.is_none(), || format!("converted to {j:?}")) }); } }
    } }
    for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { for x in [Value::DoubleFloat(f), Value::SingleFloat(f as f32), Value::Imaginary(Imaginary::PolarForm { modulus: f, argument: 1.0 }), Value::Imaginary(Imaginary::PolarForm { modulus: 1.0, argument: f }), Value::Array(vec![Value::DoubleFloat(f)]), Value::Map([("a".to_string(), Value::DoubleFloat(f))].into_iter().collect())] { t.case(|| format!("{x:?}"), || { let j = x.clone().convert_to_json(true); ensure(j.is_none(), || format!("converted to {j:?}")) }); } }
    for z in TZ_VARIANTS.iter() { pool.push(Value::Timezone(*z)); }
    for y in [-262142, -10000, -9999, -1000, -1, 0, 1, 99, 999, 1970, 2024, 9999, 10000, 262141] { for (h, m, s) in [(0, 0, 0), (23, 59, 59), (1, 2, 3)] { for ns in [0, 1, 10, 100, 1000, 123_000, 123_456, 100_000_000, 999_999_999, 120_000_000] { pool.push(Value::Timestamp(NaiveDateTime::new(NaiveDate::from_ymd_opt(y, 12, 31).unwrap(), NaiveTime::from_hms_nano_opt(h, m, s, ns).unwrap()))); } } }
    for b in 0..=255u8 { for k in 0..4 { let mut o = [1u8, 2, 3, 4]; o[k] = b; pool.push(Value::Ipv4Addr(Ipv4Addr::from(o))); } for k in 0..16 { let mut o: [u8; 16] = std::array::from_fn(|i| i as u8 + 1); o[k] = b; pool.push(Value::Ipv6Addr(Ipv6Addr::from(o))); } pool.push(Value::Binary(BinaryData(vec![b]))); }
    for n in 0..20 { pool.push(Value::Binary(BinaryData((0..n).collect()))); pool.push(Value::Array(vec![Value::Null(()); n as usize])); }
    for q in ["", "a", "real", "imaginary", "timestamp", "timezone", "bytes", "octets", "JSON", "souris", "modulus", "\u{0}"].into_iter().map(str::to_string).chain(t.lits.strs.clone()) { if q == "souris_type" { continue; } for v in [Value::Null(()), Value::Integer(5.into()), Value::Array(vec![]), Value::String(q.clone())] { pool.push(Value::Map([(q.clone(), v.clone())].into_iter().collect())); pool.push(Value::Map([(q.clone(), v), ("z".into(), Value::Boolean(true))].into_iter().collect())); } pool.push(Value::String(q)); }
    let l = t.lits.clone();
    for v in &pool { t.case(|| format!("{v:?}"), || check_json(v)); let w = Value::Map([("inner".to_string(), Value::Array(vec![v.clone(), v.clone()]))].into_iter().collect()); t.case(|| format!("{w:?}"), || check_json(&w)); }
    t.sub("store to typed JSON");
    let st = |t: &mut T, m: HashMap<String, Value>| { t.case(|| format!("{m:?}"), || {
        let j = Store::new(m.clone()).to_json(true).ok_or("not converted")?;
        let b = Store::from_json(j.clone()).map_err(|e| format!("{j} -> {e}"))?;
        ensure(b == Store::new(m.clone()), || format!("{j} came back as {:?}", *b))
    }) };
    st(t, HashMap::new());
    for v in pool.iter().step_by(3) { st(t, [("a".to_string(), v.clone())].into_iter().collect()); st(t, [("JSON".to_string(), v.clone()), ("b".into(), Value::Null(()))].into_iter().collect()); }
    for v in &pool { st(t, [("JSON".to_string(), v.clone())].into_iter().collect()); }
    while t.time_left() {
        t.sub("typed JSON");
        let v = rand_jsonable(&mut t.rng, &l, 3); t.case(|| format!("{v:?}"), || check_json(&v));
        t.sub("store to typed JSON");
        let n = list_len(&mut t.rng); let m: HashMap<String, Value> = (0..n).map(|_| (loop { let s = rand_string(&mut t.rng, &l); if s != "souris_type" { break s; } }, rand_jsonable(&mut t.rng, &l, 2))).collect(); st(t, m);
    }
}

// ------------------------------------------------------------------ JSON without souris types
/// the same document: numbers of the same kind, floats bit for bit
fn same_sj(a: &SJ, b: &SJ) -> bool {
    match (a, b) {
        (SJ::Number(x), SJ::Number(y)) => x.is_f64() == y.is_f64() && x.is_u64() == y.is_u64() && x.as_i64() == y.as_i64() && x.as_u64() == y.as_u64() && (!x.is_f64() || x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits)),
        (SJ::Array(x), SJ::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_sj(p, q)),
        (SJ::Object(x), SJ::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| same_sj(p, q))),
        _ => a == b,
    }
}
fn typed(j: &SJ) -> bool { match j { SJ::Array(a) => a.iter().any(typed), SJ::Object(o) => o.contains_key("souris_type") || o.values().any(typed), _ => false } }
fn check_doc(j: &SJ) -> R {
    for types in [false, true] {
        let v = Value::convert_from_json(j.clone()).map_err(|e| format!("refused: {e}"))?;
        let b = v.clone().convert_to_json(types).ok_or_else(|| format!("{v:?} is not converted back"))?;
        ensure(same_sj(j, &b), || format!("became {v:?} and then {b} (souris types: {types})"))?;
    }
    if let SJ::Object(o) = j { if o.len() == 1 && o.get("JSON").map_or(false, |x| !x.is_object()) { return Ok(()); } }
    for types in [false, true] {
        let s = Store::from_json(j.clone()).map_err(|e| format!("refused as a store: {e}"))?;
        let d = format!("{:?}", *s);
        let b = s.to_json(types).ok_or_else(|| format!("the store {d} is not converted back"))?;
        ensure(same_sj(j, &b), || format!("became the store {d} and then {b} (souris types: {types})"))?;
        let s = Store::from_json_bytes(j.to_string().as_bytes()).map_err(|e| format!("refused as text: {e}"))?;
        let s = Store::deser(&s.ser()).map_err(|e| format!("not read back from the store's bytes: {e}"))?;
        let d = format!("{:?}", *s);
        let b = s.to_json(types).ok_or_else(|| format!("the store {d}, read from its bytes, is not converted back"))?;
        let again: SJ = sourisdb::serde_json::from_str(&j.to_string()).map_err(|e| e.to_string())?; // reading text can round floats
        ensure(same_sj(&again, &b), || format!("became the store {d} and then {b} (from text; souris types: {types})"))?;
    }
    let bytes = Store::to_bytes(j).map_err(|e| format!("to_bytes: {e}"))?;
    let b: SJ = Store::from_bytes(&bytes).map_err(|e| format!("from_bytes: {e}"))?;
    ensure(same_sj(j, &b), || format!("to_bytes and from_bytes give {b}"))
}
pub fn p22(t: &mut T) {
    t.sub("JSON documents");
    let mut pool = vec![SJ::Null, json!(true), json!(false), json!([]), json!({}), json!(0.0), json!(-0.0), json!(1.0), json!(-1.0), json!(1e18), json!(2f64.powi(63)), json!(-2f64.powi(63)), json!(2f64.powi(64)), json!(f64::MAX), json!(5e-324), json!(0.1)];
    for n in interesting(t) { if let Some(x) = n.as_i128() { if let Ok(y) = i64::try_from(x) { pool.push(json!(y)); } if let Ok(y) = u64::try_from(x) { pool.push(json!(y)); pool.push(json!(y as f64)); } } }
    for n in 0..20usize { pool.push(SJ::Array(vec![SJ::Null; n])); pool.push(SJ::Array((0..n).map(|x| json!(x)).collect())); pool.push(SJ::Object((0..n).map(|x| (format!("{x}"), json!(x))).collect())); }
    for q in ["", "a", "real", "imaginary", "timestamp", "timezone", "bytes", "octets", "JSON", "json", "souris", "souris_typ", "souris_types", "Souris_type", "modulus", "argument", "\u{0}", "null", "true", "UTC", "Europe/London", "127.0.0.1", "::1", "2024-01-01 00:00:00", "2024-01-01T00:00:00", "5", "-1", "0.5", "inf", "NaN"].into_iter().map(str::to_string).chain(t.lits.strs.clone()) {
        if q != "souris_type" { for v in [SJ::Null, json!(5), json!([1, 2, 3, 4]), json!([]), json!({}), json!({"JSON": 1}), json!(q), json!({"a": "b"})] { pool.push(json!({ q.as_str(): v })); pool.push(json!({ q.as_str(): v, "z": true })); pool.push(json!({ "JSON": { q.as_str(): v } })); pool.push(json!({ "JSON": { "JSON": { q.as_str(): v } } })); } }
        pool.push(SJ::String(q));
    }
    pool.push(json!({"real": 1, "imaginary": 2})); pool.push(json!({"modulus": 1.0, "argument": 2.0})); pool.push(json!({"JSON": 1, "b": 2})); pool.push(json!({"JSON": null, "JSONN": null}));
    for j in &pool { t.case(|| j.to_string(), || check_doc(j)); let w = json!({"inner": [j, j]}); t.case(|| w.to_string(), || check_doc(&w)); let w = json!([[j], {"k": j}]); t.case(|| w.to_string(), || check_doc(&w)); }
    let l = t.lits.clone();
    while t.time_left() {
        let j = rand_sj(&mut t.rng, &l, 4); if typed(&j) { continue; }
        t.case(|| j.to_string(), || check_doc(&j));
    }
}

// ------------------------------------------------------------------ equality
/// equality as the property words it
fn model_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::SingleFloat(x), Value::SingleFloat(y)) => x == y, (Value::DoubleFloat(x), Value::DoubleFloat(y)) => x == y,
        (Value::Integer(x), Value::Integer(y)) => int_num(*x) == int_num(*y),
        (Value::Imaginary(Imaginary::CartesianForm { real, imaginary }), Value::Imaginary(Imaginary::CartesianForm { real: r2, imaginary: i2 })) => int_num(*real) == int_num(*r2) && int_num(*imaginary) == int_num(*i2),
        (Value::Imaginary(Imaginary::PolarForm { modulus, argument }), Value::Imaginary(Imaginary::PolarForm { modulus: m2, argument: a2 })) => modulus == m2 && argument == a2,
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| model_eq(p, q)),
        (Value::Map(x), Value::Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| model_eq(p, q))),
        _ => same(a, b),
    }
}
fn no_nan(v: &Value) -> bool { match v { Value::SingleFloat(x) => !x.is_nan(), Value::DoubleFloat(x) => !x.is_nan(), Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => !modulus.is_nan() && !argument.is_nan(), Value::Array(a) => a.iter().all(no_nan), Value::Map(m) => m.values().all(no_nan), _ => true } }
/// an equal value, built differently
fn rebuild(v: &Value, r: &mut Rng) -> Value {
    let int = |i: Integer, r: &mut Rng| { let n = int_num(i); let all = N::all_of(n); let k = r.pick(&all).int(); if r.flip() { let (s, b) = k.ser(); Integer::deser(s, &mut Cursor::new(&b)).unwrap() } else { k } };
    match v {
        Value::Integer(i) => Value::Integer(int(*i, r)),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => Value::Imaginary(Imaginary::CartesianForm { real: int(*real, r), imaginary: int(*imaginary, r) }),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => { let z = |x: f64| if x == 0.0 { -x } else { x }; Value::Imaginary(Imaginary::PolarForm { modulus: z(*modulus), argument: z(*argument) }) }
        Value::SingleFloat(x) if *x == 0.0 => Value::SingleFloat(-x), Value::DoubleFloat(x) if *x == 0.0 => Value::DoubleFloat(-x),
        Value::Array(a) => Value::Array(a.iter().map(|x| rebuild(x, r)).collect()),
        Value::Map(m) => { let mut e: Vec<_> = m.iter().map(|(k, x)| (k.clone(), rebuild(x, r))).collect(); for i in (1..e.len()).rev() { let j = r.below(i + 1); e.swap(i, j); } let mut o = if r.flip() { HashMap::new() } else { HashMap::with_capacity(r.below(100)) }; for k in 0..r.below(20) { o.insert(format!("tmp{k}"), Value::Null(())); } for (k, x) in e { o.insert(k, x); } for k in 0..20 { let s = format!("tmp{k}"); if !m.contains_key(&s) { o.remove(&s); } } Value::Map(o) }
        Value::JSON(SJ::Object(m)) => { let mut e: Vec<_> = m.iter().collect(); e.reverse(); Value::JSON(SJ::Object(e.into_iter().map(|(k, v)| (k.clone(), v.clone())).collect())) }
        x => x.clone(),
    }
}
fn check_two(a: &Value, b: &Value) -> R {
    let w = model_eq(a, b);
    ensure((a == b) == w, || format!("{a:?} == {b:?} is {}", a == b))?;
    ensure((b == a) == w, || format!("{b:?} == {a:?} is {}", b == a))?;
    if w { ensure(hash(a) == hash(b), || format!("{a:?} and {b:?} are equal but their hashes differ"))?; }
    Ok(())
}
pub fn p15(t: &mut T) {
    t.sub("equality and hashes");
    let s = |x: &str| Value::String(x.into());
    let m = |v: Vec<(&str, Value)>| Value::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let mut pool: Vec<Value> = vec![];
    for n in [0i128, 1, -1, 65, 127, 128, 255, 256, -128, 239, 240, u64::MAX as i128, i64::MIN as i128, 4278190080] { for v in N::all_of(crate::ints::Num::i(n)) { pool.push(Value::Integer(v.int())); } pool.push(Value::DoubleFloat(n as f64)); pool.push(Value::SingleFloat(n as f32)); pool.push(Value::JSON(json!(n as i64))); pool.push(Value::Imaginary(Imaginary::CartesianForm { real: (n as i64).into(), imaginary: 0.into() })); pool.push(Value::Imaginary(Imaginary::CartesianForm { real: 0.into(), imaginary: (n as i64).into() })); }
    for f in [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, 1.5, -1.5] { pool.push(Value::DoubleFloat(f)); pool.push(Value::SingleFloat(f as f32)); for g in [0.0, -0.0, 1.0] { pool.push(Value::Imaginary(Imaginary::PolarForm { modulus: f, argument: g })); } }
    for q in ["", "a", "b", "ab", "null", "true"] { pool.push(s(q)); pool.push(Value::Binary(BinaryData(q.as_bytes().to_vec()))); pool.push(Value::JSON(json!(q))); if let Some(c) = q.chars().next() { pool.push(Value::Character(c)); } pool.push(m(vec![(q, Value::Null(()))])); pool.push(m(vec![(q, Value::Null(())), ("x", s("y"))])); pool.push(Value::Array(vec![s(q)])); pool.push(Value::Array(vec![s(q), s("")])); pool.push(Value::Array(vec![s(""), s(q)])); }
    pool.extend([Value::Null(()), Value::Boolean(true), Value::Boolean(false), Value::JSON(SJ::Null), Value::JSON(json!(true)), Value::Array(vec![]), Value::Map(HashMap::new()), Value::Array(vec![Value::Array(vec![])]), Value::Array(vec![Value::Null(())]), Value::Array(vec![Value::Null(()), Value::Null(())]), Value::JSON(json!([])), Value::JSON(json!({})), Value::JSON(json!({"a": 1, "b": 2})), Value::JSON(json!({"b": 2, "a": 1})), Value::JSON(json!({"a": 2, "b": 1})), Value::JSON(json!(0.0)), Value::JSON(json!(-0.0)), Value::JSON(json!(1.0)), Value::JSON(json!([0.0])), Value::JSON(json!([-0.0])), Value::Timezone(Tz::UTC), Value::Timezone(Tz::Europe__London), Value::Ipv4Addr(Ipv4Addr::new(0, 0, 0, 0)), Value::Ipv4Addr(Ipv4Addr::new(0, 0, 0, 1)), Value::Ipv6Addr(Ipv6Addr::from([0; 16])), Value::Ipv6Addr(Ipv6Addr::from([1; 16])),
        m(vec![("a", Value::Integer(1.into())), ("b", Value::Integer(2.into()))]), m(vec![("a", Value::Integer(2.into())), ("b", Value::Integer(1.into()))]), m(vec![("a", Value::Integer(1u8.into())), ("b", Value::Integer(2u8.into()))]), m(vec![("a", Value::DoubleFloat(0.0))]), m(vec![("a", Value::DoubleFloat(-0.0))])]);
    for k in 0..3 { let d = NaiveDate::from_ymd_opt(2024, 1, 1 + k).unwrap(); pool.push(Value::Timestamp(d.and_hms_opt(0, 0, 0).unwrap())); pool.push(Value::Timestamp(NaiveDateTime::new(d, NaiveTime::from_hms_opt(0, 0, 59).unwrap().with_nanosecond(1_000_000_000).unwrap()))); pool.push(Value::Timestamp(d.and_hms_opt(0, 1, 0).unwrap())); }
    for x in t.lits.strs.clone().into_iter().take(30) { pool.push(s(&x)); }
    for x in t.lits.ints.clone().into_iter().take(30) { pool.push(Value::Integer(x.into())); pool.push(Value::DoubleFloat(x as f64)); }
    // nested pairs of the interesting ones
    let n = pool.len();
    for a in 0..n { let v = pool[a].clone(); pool.push(Value::Array(vec![v.clone()])); if a % 3 == 0 { pool.push(m(vec![("k", v)])); } }
    for a in &pool { for b in &pool { t.case(|| format!("{a:?} and {b:?}"), || check_two(a, b)); } }
    let l = t.lits.clone();
    while t.time_left() {
        let v = rand_value(&mut t.rng, &l, 3); if !no_nan(&v) { continue; }
        let w = rebuild(&v, &mut t.rng); let x = rebuild(&w, &mut t.rng); let y = if t.rng.flip() { rand_value(&mut t.rng, &l, 2) } else { let j = t.rng.below(pool.len()); pool[j].clone() };
        if !no_nan(&y) { continue; }
        t.case(|| format!("{v:?} and {w:?}"), || { check_two(&v, &v)?; check_two(&v, &v.clone())?; check_two(&v, &w)?; check_two(&w, &x)?; check_two(&v, &x) });
        t.case(|| format!("{v:?} and {y:?}"), || check_two(&v, &y));
    }
}
