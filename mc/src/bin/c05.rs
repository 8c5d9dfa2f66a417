//! C05: every truncation and every single-byte alteration of saved machines and symbol tables, every
//! single-character edit of texts; the reader must report an error or return a well-formed object.
use mc::*;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use rustfst::semirings::*;
use rustfst::SymbolTable;
use std::path::PathBuf;
use std::sync::Arc;

/// Walks the whole machine through checked and unchecked accessors. References must be in range.
fn walk<W: SerializableSemiring, F: ExpandedFst<W>>(f: &F) -> Result<(), String> {
    let n = f.num_states();
    if let Some(s) = f.start() {
        if s as usize >= n {
            return Err(format!("start state {s} out of range ({n} states)"));
        }
    }
    if f.states_iter().count() != n {
        return Err("state iteration disagrees with the number of states".into());
    }
    for s in 0..n as StateId {
        states(1);
        f.final_weight(s).map_err(|e| format!("final_weight({s}): {e}"))?;
        let trs = f.get_trs(s).map_err(|e| format!("get_trs({s}): {e}"))?;
        if trs.len() != trs.trs().len() || f.num_trs(s).map_err(|e| e.to_string())? != trs.len() {
            return Err(format!("transition count of state {s} is wrong"));
        }
        for t in trs.trs() {
            transitions(1);
            if t.nextstate as usize >= n {
                return Err(format!("transition from {s} to non-existent state {}", t.nextstate));
            }
        }
        if unsafe { f.get_trs_unchecked(s) }.trs().len() != trs.trs().len() {
            return Err("unchecked transitions differ".into());
        }
        f.num_input_epsilons(s).map_err(|e| e.to_string())?;
        f.num_output_epsilons(s).map_err(|e| e.to_string())?;
    }
    for t in [f.input_symbols(), f.output_symbols()].into_iter().flatten() {
        walk_symt(t)?;
    }
    let _ = f.properties();
    Ok(())
}
fn walk_symt(t: &SymbolTable) -> Result<(), String> {
    for (i, (l, s)) in t.iter().enumerate() {
        if l as usize != i || t.get_label(s) != Some(l) || t.get_symbol(l) != Some(s) {
            return Err(format!("symbol table is inconsistent at label {l}"));
        }
    }
    if t.iter().count() != t.len() {
        return Err("symbol table size wrong".into());
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum Damage {
    Cut(usize),
    Set(usize, u8),
    Two(usize, u8, usize, u8),
}
impl Damage {
    fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        match *self {
            Damage::Cut(k) => v.truncate(k),
            Damage::Set(p, x) => v[p] = x,
            Damage::Two(p, x, q, y) => {
                v[p] = x;
                v[q] = y;
            }
        }
        v
    }
}
/// All cuts, then all single-byte alterations, then pairs of `pair` values at all pairs of positions.
#[derive(Clone)]
struct Dmg {
    bytes: Arc<Vec<u8>>,
    pair: Vec<u8>,
}
impl Space for Dmg {
    type Item = Damage;
    fn len(&self) -> u64 {
        let n = self.bytes.len() as u64;
        let k = self.pair.len() as u64;
        n + n * 255 + n * (n - 1) / 2 * k * k
    }
    fn get(&self, i: u64) -> Damage {
        let n = self.bytes.len() as u64;
        if i < n {
            return Damage::Cut(i as usize);
        }
        let i = i - n;
        if i < n * 255 {
            let p = (i / 255) as usize;
            // skip the present value
            return Damage::Set(p, self.bytes[p].wrapping_add((i % 255) as u8 + 1));
        }
        let i = i - n * 255;
        let k = self.pair.len() as u64;
        let (mut r, x, y) = (i / (k * k), i / k % k, i % k);
        let mut p = 0;
        while r >= n - 1 - p {
            r -= n - 1 - p;
            p += 1;
        }
        Damage::Two(p as usize, self.pair[x as usize], (p + 1 + r) as usize, self.pair[y as usize])
    }
}
fn judge<T>(d: &Damage, r: anyhow::Result<T>, walk: impl Fn(&T) -> Result<(), String>) -> Result<(), String> {
    trace();
    match r {
        Err(_) => {
            nontrivial();
            Ok(())
        }
        Ok(x) => {
            if let Damage::Cut(k) = d {
                return Err(format!("data cut short after {k} bytes was accepted"));
            }
            walk(&x)
        }
    }
}
fn machine<W: SerializableSemiring>(w: impl Fn(i32) -> W, symt: bool, n: usize) -> VectorFst<W> {
    let mut a = Aut { n, start: Some(n - 1), fin: vec![None; n], arcs: vec![] };
    for s in 0..n {
        a.arcs.push(Arc5 { s, i: 1, o: 2, w: 1, d: (s + 1) % n });
    }
    a.arcs.push(Arc5 { s: n - 1, i: 0, o: 1, w: 2, d: 0 });
    a.fin[0] = Some(1);
    let mut f = a.build(|_, c| w(c), |_, c| w(c));
    if symt {
        f.set_input_symbols(Arc::new(symt!["a", "é"]));
        f.set_output_symbols(Arc::new(symt!["x", "yy"]));
    }
    f
}
fn dir() -> PathBuf {
    let d = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("target/scratch-c05");
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn with_file<T>(b: &[u8], f: impl FnOnce(&PathBuf) -> T) -> T {
    let p = dir().join(format!("f{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::write(&p, b).unwrap();
    let r = f(&p);
    let _ = std::fs::remove_file(&p);
    r
}
fn vector<W: SerializableSemiring>(m: &mut Mc, name: &str, f: VectorFst<W>, pair: &[u8]) {
    let mut b = vec![];
    f.store(&mut b).unwrap();
    let sp = Dmg { bytes: Arc::new(b.clone()), pair: pair.to_vec() };
    m.family(&format!("vector {name}"), "every truncation and every alteration of one byte (255 values each) of a saved mutable machine; non-trivial: reported as error", sp, |d| judge(d, VectorFst::<W>::load(&d.apply(&b)), walk));
}
fn constant<W: SerializableSemiring>(m: &mut Mc, name: &str, f: VectorFst<W>, pair: &[u8], file: bool) {
    let c: ConstFst<W> = f.into();
    let mut b = vec![];
    c.store(&mut b).unwrap();
    let sp = Dmg { bytes: Arc::new(b.clone()), pair: pair.to_vec() };
    m.family(&format!("const {name}"), "same for a saved immutable machine", sp.clone(), |d| judge(d, ConstFst::<W>::load(&d.apply(&b)), walk));
    if file {
        m.family(&format!("const-as-vector {name}"), "same, immutable file read into a mutable machine", Dmg { pair: vec![], ..sp }, |d| judge(d, with_file(&d.apply(&b), |p| VectorFst::<W>::read_from_const(p)), walk));
    }
}
/// One edit of a text.
#[derive(Clone, Debug)]
struct Edit(String);
fn edits(t: &str, alphabet: &str) -> Vec<Edit> {
    let c: Vec<char> = t.chars().collect();
    let mut v = vec![];
    let s = |c: Vec<char>| Edit(c.into_iter().collect());
    for p in 0..=c.len() {
        v.push(s(c[..p].to_vec()));
        for x in alphabet.chars() {
            v.push(s([&c[..p], &[x], &c[p..]].concat()));
            if p < c.len() {
                v.push(s([&c[..p], &[x], &c[p + 1..]].concat()));
            }
        }
        if p < c.len() {
            v.push(s([&c[..p], &c[p + 1..]].concat()));
        }
    }
    v
}
/// A row is 1, 2, 4 or 5 tab-separated columns: ids and labels are decimal numbers, weights floats.
fn good_fst_text(t: &str) -> bool {
    let rows: Vec<&str> = t.trim_end_matches(['\n', ' ', '\t', '\r']).split('\n').collect();
    let isnum = |x: &str| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit()) && x.parse::<u32>().is_ok();
    let isw = |x: &str| x.parse::<f32>().is_ok() && !x.to_lowercase().contains("nan");
    t.trim().is_empty()
        || rows.iter().all(|r| {
            let c: Vec<&str> = r.split('\t').collect();
            match c.len() {
                1 => isnum(c[0]),
                2 => isnum(c[0]) && isw(c[1]),
                4 => c.iter().all(|x| isnum(x)),
                5 => c[..4].iter().all(|x| isnum(x)) && isw(c[4]),
                _ => false,
            }
        })
}
fn fst_text(e: &Edit) -> Result<(), String> {
    trace();
    let good = good_fst_text(&e.0);
    let v = VectorFst::<TropicalWeight>::from_text_string(&e.0);
    let c = ConstFst::<TropicalWeight>::from_text_string(&e.0);
    if let Ok(f) = &v {
        walk(f)?;
    }
    if let Ok(f) = &c {
        walk(f)?;
    }
    if v.is_ok() != c.is_ok() {
        return Err("the two storage types disagree on whether the text is acceptable".into());
    }
    if !good {
        nontrivial();
        if v.is_ok() {
            return Err(format!("malformed text accepted as {:?}", M::of(&v.unwrap())?));
        }
    }
    Ok(())
}
fn symt_text(e: &Edit) -> Result<(), String> {
    trace();
    let t = SymbolTable::from_text_string(&e.0);
    // Rows up to the last line that is not blank; what follows it is blank and carries nothing.
    let end = e.0.trim_end().len();
    let body = &e.0[..e.0[end..].find('\n').map_or(e.0.len(), |k| end + k)];
    let body = if body.trim().is_empty() { "" } else { body };
    let rows: Vec<&str> = if body.is_empty() { vec![] } else { body.split('\n').collect() };
    let good = rows.iter().enumerate().all(|(i, r)| {
        let k = r.find([' ', '\t']).unwrap_or(r.len());
        let rest = r[k..].trim_start_matches([' ', '\t']);
        k < r.len() && !rest.is_empty() && rest.chars().all(|c| c.is_ascii_digit()) && rest.parse::<usize>() == Ok(i)
    });
    match t {
        Ok(t) => {
            walk_symt(&t)?;
            if !good {
                return Err(format!("malformed symbol table text accepted: {:?}", t.iter().collect::<Vec<_>>()));
            }
            if t.len() != rows.len() && good {
                return Err(format!("{} of {} rows kept", t.len(), rows.len()));
            }
        }
        Err(_) => {
            nontrivial();
        }
    }
    Ok(())
}

fn main() {
    run("C05", "model_checking", |m| {
        let t = |c: i32| TropicalWeight::new(c as f32);
        let none: &[u8] = &[];
        vector(m, "tropical+symbols", machine(t, true, 3), none);
        constant(m, "tropical+symbols", machine(t, true, 3), none, true);
        let pair: &[u8] = if m.thorough() { &[0, 1, 2, 0x7f, 0x80, 0xff] } else { &[1, 0xff] };
        vector(m, "tropical, pairs", machine(t, false, 2), pair);
        constant(m, "tropical, pairs", machine(t, false, 2), pair, true);
        vector(m, "no states", VectorFst::<TropicalWeight>::new(), none);
        constant(m, "no states", VectorFst::<TropicalWeight>::new(), none, false);
        let i = |c: i32| IntegerWeight::new(c);
        vector(m, "integer", machine(i, false, 2), none);
        vector(m, "log", machine(|c| LogWeight::new(c as f32), false, 2), none);
        vector(m, "probability", machine(|c| ProbabilityWeight::new(c as f32), false, 2), none);
        let s = |c: i32| StringWeightLeft::from(vec![c as Label; c as usize + 1]);
        vector(m, "string", machine(s, false, 2), none);
        constant(m, "string", machine(s, false, 2), none, false);
        let g = |c: i32| GallicWeight::<TropicalWeight>::new((0..=c).map(|k| GallicWeightRestrict::from((vec![1; k as usize], TropicalWeight::new(0.5)))).collect());
        vector(m, "gallic", machine(g, false, 2), none);
        constant(m, "gallic", machine(g, false, 2), none, false);
        let gl = |c: i32| GallicWeightLeft::<TropicalWeight>::from((vec![c as Label; 2], TropicalWeight::new(c as f32)));
        vector(m, "gallic-left", machine(gl, false, 2), none);
        // symbol tables
        let st = symt!["a", "é", "", "b c"];
        let b = with_file(&[], |p| {
            st.write(p).unwrap();
            std::fs::read(p).unwrap()
        });
        m.family("symbol table", "every truncation and every alteration of one byte (thorough: pairs) of a saved symbol table", Dmg { bytes: Arc::new(b.clone()), pair: pair.to_vec() }, |d| judge(d, with_file(&d.apply(&b), |p| SymbolTable::read(p)), walk_symt));
        // texts
        let ab = "0129\t\n -.Ixé";
        let texts = ["0\t1\t1\t2\t0.5\n1\t2\t0\t3\n2\t0.25\n0\n", "2\t0\t1\t1\t-1\n2\tInfinity\n1\t0\t7\t8\t1e2\n0\n"];
        let mut v: Vec<Edit> = texts.iter().flat_map(|t| edits(t, ab)).collect();
        if m.thorough() {
            // two edits
            v.extend(texts.iter().flat_map(|t| edits(t, "0\t\n-x").into_iter().flat_map(|e| edits(&e.0, "1\t\nx"))));
        }
        m.family("fst text", "every truncation, insertion, replacement and deletion of one (thorough: two) characters in two texts", v, fst_text);
        let stx = ["<eps>\t0\na\t1\nbc\t2\n", "<eps> 0\né  1\n"];
        let mut v: Vec<Edit> = stx.iter().flat_map(|t| edits(t, "0129\t\n -xé")).collect();
        v.extend(stx.iter().flat_map(|t| edits(t, "1\t\nx").into_iter().flat_map(|e| edits(&e.0, "1\t\nx"))));
        m.family("symbol table text", "every edit of one or two characters in two symbol table texts", v, symt_text);
        m.assumptions = vec!["state ids in texts below 10000: reading a text naming state 4294967295 allocates that many states by design".into()];
        let _ = std::fs::remove_dir(dir());
    })
}
