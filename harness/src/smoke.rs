use crate::rt::*;
use std::collections::HashMap;
pub fn smoke_1() {
    let a = any_u32("a", 0, 100);
    let b = any_u32("b", 0, 100);
    let mut m: HashMap<String, u32> = HashMap::new();
    choose_map_order();
    m.insert("foo".into(), a);
    m.insert("bar".into(), b);
    let v: Vec<String> = m.keys().cloned().collect();
    log(&v.join(","));
    if a < b { cover("lt"); } else { cover("ge"); }
    expect(&["lt", "ge"]);
    check(a + b != 77 || a > 3, "sum");
}
pub fn smoke_2() {
    let p = put("x/y.json", "{\"a\":[1,2,3.5],\"b\":\"hé\"}");
    let v: serde_json::Value = serde_json::from_reader(std::fs::File::open(p).unwrap()).unwrap();
    log(&v.to_string());
    let t = any_text("t", 3, &[('a', 'c'), ('é', 'ê')]);
    let u = t.to_uppercase();
    check(u.chars().count() == 3, "upper");
    log("done");
}
/// standard library calls the code under test could come to use
pub fn smoke_3() {
    expect(&["NaN", "subnormal", "infinite", "zero", "normal"]);
    put("a.txt", "text");
    std::fs::copy(root().join("a.txt"), root().join("b.txt")).expect("copy");
    check(std::fs::read_to_string(root().join("b.txt")).unwrap() == "text", "copied");
    std::fs::rename(root().join("b.txt"), root().join("c.txt")).expect("rename");
    check(!root().join("b.txt").exists() && root().join("c.txt").is_file(), "renamed");
    let c = std::fs::canonicalize(root().join("c.txt")).expect("canonicalize");
    check(c.ends_with("c.txt"), "canonical");
    let b = any_u32("bits", 0, u32::MAX);
    let f = f32::from_bits(b);
    let abs = b & 0x7fff_ffff;
    check(f.is_nan() == (abs > 0x7f80_0000), "NaN");
    check(f.is_infinite() == (abs == 0x7f80_0000), "infinite");
    check(f.is_normal() == (abs >= 0x80_0000 && abs < 0x7f80_0000), "normal");
    check((f == 0.) == (abs == 0), "zero");
    check(f.is_subnormal() == (abs > 0 && abs < 0x80_0000), "subnormal");
    cover_if(f.is_nan(), "NaN");
    cover_if(f.is_infinite(), "infinite");
    cover_if(f.is_normal(), "normal");
    cover_if(f == 0., "zero");
    cover_if(f.is_subnormal(), "subnormal");
    check("nan".parse::<f32>().unwrap().is_nan() && "-inf".parse::<f64>().unwrap() < 0., "parsed");
    let mut v = vec![3, 1, 2];
    v.sort_unstable();
    check(v == [1, 2, 3], "sorted");
    let m: std::collections::BTreeMap<u32, u32> = v.iter().map(|i| (*i, *i)).collect();
    check(m.values().sum::<u32>() == 6, "sum");
    let t: i32 = "-12".parse().unwrap();
    check(t.rem_euclid(5) == 3, "rem");
    check(format!("{:.3} {:>4} {:?}", 1.5f32, "é", Some("x")) == "1.500    é Some(\"x\")", "formatted");
}
