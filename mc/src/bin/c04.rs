//! C04: binary and text round trips of machines and symbol tables, and write failures at every byte.
use mc::*;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use rustfst::semirings::*;
use rustfst::SymbolTable;
use std::io::Write;
use std::path::PathBuf;
use std::sync::Arc;

/// Exact text of a machine; a final weight zero means "not final".
fn norm<W: Semiring>(mut m: M<W>) -> M<W> {
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.is_zero()) {
            *f = None
        }
    }
    m
}
fn same<W: Semiring>(what: &str, got: M<W>, want: &M<W>) -> Result<(), String> {
    trace();
    states(want.n() as u64);
    transitions(want.num_arcs() as u64);
    let got = norm(got);
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    if g != w {
        return Err(format!("{what} gives {g}\n  expected {w}"));
    }
    Ok(())
}
fn counts<W: Semiring, F: ExpandedFst<W>>(what: &str, f: &F, m: &M<W>) -> Result<(), String> {
    for s in 0..m.n() {
        let e = |k: usize| m.arcs[s].iter().filter(|t| if k == 0 { t.0 == 0 } else { t.1 == 0 }).count();
        let g = (f.num_trs(s as StateId).unwrap(), f.num_input_epsilons(s as StateId).unwrap(), f.num_output_epsilons(s as StateId).unwrap());
        if g != (m.arcs[s].len(), e(0), e(1)) {
            return Err(format!("{what}: counts of state {s} are {g:?}"));
        }
    }
    Ok(())
}
fn symts<W: Semiring, F: Fst<W>, G: Fst<W>>(what: &str, f: &F, g: &G) -> Result<(), String> {
    if f.input_symbols() != g.input_symbols() || f.output_symbols() != g.output_symbols() {
        return Err(format!("{what} lost or changed a symbol table"));
    }
    Ok(())
}
/// Inserts the padding of the aligned variant of the immutable format (written by OpenFst only).
fn aligned<W: SerializableSemiring>(c: &ConstFst<W>, bytes: &[u8], symts_len: usize, m: &M<W>) -> Vec<u8> {
    let str_at = |p: usize| 4 + i32::from_le_bytes(bytes[p..p + 4].try_into().unwrap()) as usize;
    let mut p = 4;
    p += str_at(p);
    p += str_at(p);
    let mut out = bytes[..p].to_vec();
    out.extend(1i32.to_le_bytes());
    let hdr = p + 4 + 4 + 8 * 4 + symts_len;
    out.extend(&bytes[p + 4..hdr]);
    let mut st = vec![];
    for s in 0..m.n() {
        m.fin[s].clone().unwrap_or_else(W::zero).write_binary(&mut st).unwrap();
        st.extend([0u8; 16]);
    }
    let states_len = st.len();
    let _ = c;
    let pad = |o: &mut Vec<u8>| {
        while o.len() % 16 != 0 {
            o.push(0xee)
        }
    };
    if m.n() > 0 {
        pad(&mut out);
    }
    out.extend(&bytes[hdr..hdr + states_len]);
    if m.num_arcs() > 0 {
        pad(&mut out);
    }
    out.extend(&bytes[hdr + states_len..]);
    out
}
fn is_one<W: Semiring>(w: &W) -> bool {
    format!("{w:?}") == format!("{:?}", W::one())
}
/// The text a foreign tool would write: weights equal to one omitted, arc-less states given a final row.
fn foreign_text<W: SerializableSemiring>(m: &M<W>, show_one: bool) -> String {
    let mut t = String::new();
    let order: Vec<usize> = m.start.into_iter().chain((0..m.n()).filter(|s| Some(*s) != m.start)).collect();
    for s in order {
        for (i, o, w, d) in &m.arcs[s] {
            t += &format!("{s}\t{d}\t{i}\t{o}");
            if show_one || !is_one(w) {
                t += &format!("\t{w}");
            }
            t += "\n";
        }
        match &m.fin[s] {
            Some(w) if show_one || !is_one(w) => t += &format!("{s}\t{w}\n"),
            Some(_) => t += &format!("{s}\n"),
            None if m.arcs[s].is_empty() => t += &format!("{s}\tInfinity\n"),
            None => {}
        }
    }
    t
}
/// What text can express: no start means nothing, trailing unmentioned states vanish.
fn text_view<W: Semiring>(m: &M<W>) -> M<W> {
    let mut v = m.clone();
    if m.start.is_none() {
        return M { start: None, fin: vec![], arcs: vec![] };
    }
    let mut n = m.start.unwrap() + 1;
    for s in 0..m.n() {
        if m.fin[s].is_some() || !m.arcs[s].is_empty() {
            n = n.max(s + 1);
        }
        for t in &m.arcs[s] {
            n = n.max(t.3 + 1);
        }
    }
    v.fin.truncate(n);
    v.arcs.truncate(n);
    v
}
fn scratch() -> PathBuf {
    let d = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into())).join("target/scratch-c04");
    std::fs::create_dir_all(&d).unwrap();
    d
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn tmp() -> Scratch {
    use std::sync::atomic::*;
    static N: AtomicU64 = AtomicU64::new(0);
    Scratch(scratch().join(format!("f{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))))
}

fn table(k: usize) -> Option<Arc<SymbolTable>> {
    match k {
        0 => None,
        1 => Some(Arc::new(symt!["a", "é b", ""])),
        _ => Some(Arc::new(SymbolTable::empty())),
    }
}
fn bin<W: SerializableSemiring>(a: &Aut, w: impl Fn(i32) -> W, files: bool) -> Result<(), String> {
    let raw = a.model(|_, c| w(c), |_, c| w(c));
    let m = norm(raw.clone());
    // flags of a machine with a zero final weight are not comparable: it is final before, not final after
    let zero_final = format!("{raw:?}") != format!("{m:?}");
    let flags_ok = |what: &str, p: rustfst::fst_properties::FstProperties| if zero_final { Ok(()) } else { Truth::of(&m).check(what, p) };
    if m.num_arcs() > 0 {
        nontrivial();
    }
    for (fi, f) in with_flags(&a.build(|_, c| w(c), |_, c| w(c))).into_iter().enumerate() {
        for k in 0..if fi == 0 { 3 } else { 1 } {
            let mut f = f.clone();
            if k == 1 {
                f.set_input_symbols(table(1).unwrap());
            }
            if k >= 1 {
                f.set_output_symbols(table(k).unwrap());
            }
            let mut b = vec![];
            ok("store", f.store(&mut b))?;
            let g = ok("load", VectorFst::<W>::load(&b))?;
            same("binary round trip", M::of(&g)?, &m)?;
            counts("binary round trip", &g, &m)?;
            symts("binary round trip", &f, &g)?;
            if g.properties() != f.properties() {
                return Err(format!("binary round trip changed the flags {:?} into {:?}", f.properties(), g.properties()));
            }
            flags_ok("binary round trip", g.properties())?;
            let mut b2 = vec![];
            ok("store", g.store(&mut b2))?;
            if b != b2 && !zero_final {
                return Err("storing the reloaded machine gives different bytes".into());
            }
            // immutable storage
            let c: ConstFst<W> = f.clone().into();
            let mut cb = vec![];
            ok("store", c.store(&mut cb))?;
            let mut variants = vec![cb.clone()];
            let mut symlen = 0;
            for t in [c.input_symbols(), c.output_symbols()].into_iter().flatten() {
                let p = tmp();
                ok("write", t.write(&p.0))?;
                symlen += std::fs::read(&p.0).unwrap().len();
            }
            variants.push(aligned(&c, &cb, symlen, &m));
            for (v, cb) in variants.iter().enumerate() {
                let what = ["immutable round trip", "aligned immutable file"][v];
                let g = ok(what, ConstFst::<W>::load(cb))?;
                same(what, M::of(&g)?, &m)?;
                counts(what, &g, &m)?;
                symts(what, &c, &g)?;
                if g.properties() != c.properties() {
                    return Err(format!("{what} changed the flags"));
                }
                flags_ok(what, g.properties())?;
                if files {
                    let p = tmp();
                    std::fs::write(&p.0, cb).unwrap();
                    let g = ok(what, VectorFst::<W>::read_from_const(&p.0))?;
                    same("immutable file read as mutable", M::of(&g)?, &m)?;
                    counts("immutable file read as mutable", &g, &m)?;
                    symts("immutable file read as mutable", &c, &g)?;
                    flags_ok("immutable file read as mutable", g.properties())?;
                }
            }
            if VectorFst::<W>::load(&cb).is_ok() || ConstFst::<W>::load(&b).is_ok() {
                return Err("a file of the other storage type was accepted".into());
            }
            if files {
                let p = tmp();
                ok("write", f.write(&p.0))?;
                if std::fs::read(&p.0).unwrap() != b {
                    return Err("write and store differ".into());
                }
                same("read", M::of(&ok("read", VectorFst::<W>::read(&p.0))?)?, &m)?;
                ok("write", c.write(&p.0))?;
                same("read", M::of(&ok("read", ConstFst::<W>::read(&p.0))?)?, &m)?;
            }
        }
    }
    Ok(())
}
fn text<W: SerializableSemiring>(a: &Aut, w: impl Fn(i32) -> W, files: bool) -> Result<(), String> {
    let raw = a.model(|_, c| w(c), |_, c| w(c));
    let full = norm(raw.clone());
    if format!("{raw:?}") != format!("{full:?}") {
        // a zero final weight is printed as a final row but denotes a non-final state
        return Ok(());
    }
    let m = text_view(&full);
    if m.num_arcs() > 0 {
        nontrivial();
    }
    let f = a.build(|_, c| w(c), |_, c| w(c));
    let c: ConstFst<W> = f.clone().into();
    let mut texts = vec![("text", ok("text", f.text())?), ("immutable text", ok("text", c.text())?)];
    if full.start.is_some() {
        texts.push(("foreign text", foreign_text(&full, true)));
        texts.push(("foreign text, ones omitted", foreign_text(&full, false)));
        texts.push(("foreign text, no last newline", foreign_text(&full, false).trim_end_matches('\n').to_string()));
    }
    if files {
        let p = tmp();
        ok("write_text", f.write_text(&p.0))?;
        if std::fs::read_to_string(&p.0).unwrap() != texts[0].1 {
            return Err("write_text and text differ".into());
        }
        same("read_text", M::of(&ok("read_text", VectorFst::<W>::read_text(&p.0))?)?, &m)?;
        same("read_text", M::of(&ok("read_text", ConstFst::<W>::read_text(&p.0))?)?, &m)?;
    }
    for (i, (what, t)) in texts.iter().enumerate() {
        // the foreign writer names every state
        let want = if i < 2 { m.clone() } else { full.clone() };
        let run = || -> Result<(), String> {
            let g = ok(what, VectorFst::<W>::from_text_string(t))?;
            let mut got = M::of(&g)?;
            let mut want = want.clone();
            if i >= 2 {
                // states named only by a closing "Infinity" row may be dropped
                got = text_view(&got);
                want = text_view(&want);
            }
            same(what, got, &want)?;
            counts(what, &g, &text_view(&M::of(&g)?))?;
            flags_ok(what, &g)?;
            let g = ok(what, ConstFst::<W>::from_text_string(t))?;
            let mut got = M::of(&g)?;
            if i >= 2 {
                got = text_view(&got);
            }
            same(what, got, &want)?;
            counts(what, &g, &text_view(&M::of(&g)?))?;
            flags_ok(what, &g)
        };
        run().map_err(|e| format!("{e}\n  text: {t:?}"))?;
    }
    Ok(())
}

/// Accepts `left` bytes, then fails; may also split writes.
struct Failing {
    left: usize,
    chunk: usize,
    got: Vec<u8>,
}
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(self.left).min(self.chunk);
        if k == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "device full"));
        }
        self.got.extend(&b[..k]);
        self.left -= k;
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn full_device(what: &str, r: anyhow::Result<()>, empty: bool) -> Result<(), String> {
    trace();
    if r.is_ok() && !empty {
        return Err(format!("{what} to a full device reported success"));
    }
    Ok(())
}
fn faults(a: &Aut) -> Result<(), String> {
    let w = |c: i32| TropicalWeight::new(c as f32);
    let mut f = a.build(|_, c| w(c), |_, c| w(c));
    f.set_input_symbols(table(1).unwrap());
    let c: ConstFst<TropicalWeight> = f.clone().into();
    let mut want = [vec![], vec![]];
    ok("store", f.store(&mut want[0]))?;
    ok("store", c.store(&mut want[1]))?;
    nontrivial();
    for k in 0..2 {
        for chunk in [1, 7, usize::MAX] {
            for left in 0..=want[k].len() {
                let mut o = Failing { left, chunk, got: vec![] };
                let r = if k == 0 { f.store(&mut o) } else { c.store(&mut o) };
                trace();
                states(1);
                if r.is_ok() != (left == want[k].len()) || o.got != want[k][..left] {
                    return Err(format!("store to a writer failing after {left} of {} bytes: ok={}, wrote {} bytes", want[k].len(), r.is_ok(), o.got.len()));
                }
            }
        }
    }
    if std::path::Path::new("/dev/full").exists() {
        let dev = "/dev/full";
        full_device("VectorFst::write", f.write(dev), false)?;
        full_device("ConstFst::write", c.write(dev), false)?;
        full_device("VectorFst::write_text", f.write_text(dev), f.text().unwrap().is_empty())?;
        full_device("ConstFst::write_text", c.write_text(dev), f.text().unwrap().is_empty())?;
        full_device("draw", f.draw(dev, &Default::default()), f.start().is_none())?;
        for k in 1..3 {
            let t = table(k).unwrap();
            full_device("SymbolTable::write", t.write(dev), false)?;
            full_device("SymbolTable::write_text", t.write_text(dev), t.is_empty())?;
        }
    }
    Ok(())
}

/// The drawing names every state and every transition exactly once, with its labels, weight, start and final marks.
fn drawing(a: &Aut, k: usize) -> Result<(), String> {
    let w = |c: i32| TropicalWeight::new(c as f32);
    let mut f = a.build(|_, c| w(c), |_, c| w(c));
    let (acceptor, show_one, weight, tables) = (k & 1 == 1, k & 2 == 2, k & 4 == 4, k & 8 == 8);
    if tables {
        f.set_input_symbols(table(1).unwrap());
        f.set_output_symbols(table(1).unwrap());
    }
    let c = DrawingConfig { acceptor, show_weight_one: show_one, print_weight: weight, vertical: k & 1 == 0, portrait: k & 2 == 0, size: Some((8.5, 11.0)), ranksep: Some(0.5), nodesep: None, ..Default::default() };
    let p = tmp();
    ok("draw", f.draw(&p.0, &c))?;
    let text = std::fs::read_to_string(&p.0).map_err(|e| e.to_string())?;
    trace();
    let m = M::of(&f)?;
    let mut want: Vec<(Option<usize>, usize, String, bool, bool)> = vec![];
    let sym = |l: Label| match f.input_symbols() {
        Some(t) => t.get_symbol(l).unwrap_or("?").to_string(),
        None => l.to_string(),
    };
    let ws = |x: &TropicalWeight| if weight && (show_one || !x.is_one()) { format!("/{x}") } else { String::new() };
    if m.start.is_some() {
        for q in 0..m.n() as usize {
            let fw = m.fin[q as usize].as_ref();
            want.push((None, q, format!("{q}{}", fw.map_or(String::new(), |x| ws(x))), fw.is_some(), m.start == Some(q)));
            for (i, o, x, to) in &m.arcs[q as usize] {
                want.push((Some(q), *to, format!("{}{}{}", sym(*i), if acceptor { String::new() } else { format!(":{}", sym(*o)) }, ws(x)), false, false));
            }
        }
    }
    let mut got = vec![];
    for l in text.lines() {
        let l = l.trim();
        if !l.starts_with(|c: char| c.is_ascii_digit()) {
            continue;
        }
        let (head, rest) = l.split_once('[').ok_or(format!("cannot read line {l}"))?;
        let label = rest.split('"').nth(1).unwrap_or("").to_string();
        let mut ids = head.split("->").map(|x| x.trim().parse::<usize>());
        match (ids.next(), ids.next()) {
            (Some(Ok(q)), None) => got.push((None, q, label, rest.contains("doublecircle"), rest.contains("bold"))),
            (Some(Ok(q)), Some(Ok(t))) => got.push((Some(q), t, label, false, false)),
            _ => return Err(format!("cannot read line {l}")),
        }
    }
    got.sort();
    want.sort();
    if want.len() > 1 {
        nontrivial();
    }
    if got != want {
        return Err(format!("drawing lists {got:?}, the machine is {want:?}"));
    }
    Ok(())
}

const SYMS: [&str; 7] = ["a", "b", "", "é", "a b", "<eps>", "a\n"];
fn symtab(v: &Vec<usize>, with_eps: bool) -> Result<(), String> {
    let mut t = if with_eps { SymbolTable::new() } else { SymbolTable::empty() };
    let mut list: Vec<&str> = if with_eps { vec!["<eps>"] } else { vec![] };
    for i in v {
        t.add_symbol(SYMS[*i]);
        if !list.contains(&SYMS[*i]) {
            list.push(SYMS[*i])
        }
    }
    if list.len() > 1 {
        nontrivial();
    }
    let check = |what: &str, g: &SymbolTable| -> Result<(), String> {
        trace();
        states(list.len() as u64);
        let got: Vec<(Label, String)> = g.iter().map(|(l, s)| (l, s.to_string())).collect();
        let want: Vec<(Label, String)> = list.iter().enumerate().map(|(i, s)| (i as Label, s.to_string())).collect();
        if got != want || *g != t || list.iter().enumerate().any(|(i, s)| g.get_label(s) != Some(i as Label)) {
            return Err(format!("{what} gives {got:?}, expected {want:?}"));
        }
        Ok(())
    };
    check("building", &t)?;
    let p = tmp();
    ok("write", t.write(&p.0))?;
    check("binary symbol table", &ok("read", SymbolTable::read(&p.0))?)?;
    // the text format separates by white space
    if list.iter().all(|s| !s.contains([' ', '\t', '\n'])) {
        let x = ok("text", t.text())?;
        check("text symbol table", &ok("from_text_string", SymbolTable::from_text_string(&x))?)?;
        ok("write_text", t.write_text(&p.0))?;
        if std::fs::read_to_string(&p.0).unwrap() != x {
            return Err("write_text and text differ".into());
        }
        check("text symbol table file", &ok("read_text", SymbolTable::read_text(&p.0))?)?;
    }
    Ok(())
}

const FLOATS: [f32; 12] = [0.0, f32::INFINITY, 0.1, -0.5, 1e30, 1e-30, 123456.79, 3.0, f32::MIN_POSITIVE, f32::MAX, -0.0, 16777217.0];
fn fl(c: i32) -> f32 {
    FLOATS[c as usize]
}
fn st(c: i32) -> Vec<Label> {
    [vec![], vec![1], vec![2, 1], vec![u32::MAX - 1], vec![10, 20, 30]][c as usize % 5].clone()
}

fn main() {
    run("C04", "model_checking", |m| {
        let p = [(0, 0), (1, 2), (0, 1), (2, 0)];
        let t = |c: i32| TropicalWeight::new([0.0, 1.5, f32::INFINITY][c as usize]);
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 2, &p).all_starts().aw(&[0, 1, 2]).fw(&[0, 1, 2]).collect(|_| true));
        m.family("small", "all machines with <=1 state, <=2 arcs, weights one, 1.5, zero; no/one/both symbol tables; binary, immutable, aligned and text forms, through files", v, |a| {
            bin(a, t, true)?;
            text(a, t, true)
        });
        m.family("n=2", "all machines with 2 states, <=2 arcs over 4 label pairs, any start incl. none", Auts::new(2, 2, &p).all_starts().aw(&[0, 1]).fw(&[0, 1]), |a| {
            bin(a, t, false)?;
            text(a, t, false)
        });
        m.family("n=3", "all machines with 3 states, <=2 (3) arcs, any start", Auts::new(3, m.pick(2, 3), &p[..2]).all_starts().aw(&[1]).fw(&[1]).both_orders(), |a| {
            bin(a, t, false)?;
            text(a, t, false)
        });
        m.family("n=4", "all machines with 4 states, <=2 arcs, start 0 or 2", Auts::new(4, 2, &[(0, 2)]).starts(vec![Some(0), Some(2)]).aw(&[1]).fw(&[0]), |a| {
            bin(a, t, false)?;
            text(a, t, false)
        });
        m.family("n=2,k=3", "all machines with 2 states and 3 (4) arcs over 3 label pairs", Auts::new(2, m.pick(3, 4), &p[..3]).kmin(3).aw(&[0, 1]).fw(&[0, 1]).all_starts(), |a| {
            bin(a, t, false)?;
            text(a, t, false)
        });
        let small = Auts::new(2, 2, &[(1, 2), (0, 1)]).all_starts().aw(&[0, 1]).fw(&[0, 1]);
        m.family("drawing", "all machines with 2 states and <=2 arcs, all 16 drawing options", Prod(small, (0..16usize).collect::<Vec<_>>()), |(a, k)| drawing(a, *k));
        let long: Vec<(usize, usize)> = [7, 16, 17, 100, 257, 300].into_iter().flat_map(|n| (0..5).map(move |k| (k, n))).collect();
        m.family("long", "5 graph shapes of 7..300 states (counts and ids beyond one byte)", long, |&(k, n)| {
            let a = shape(k, n, 3);
            let w = |c: i32| TropicalWeight::new(c as f32);
            bin(&a, w, true)?;
            text(&a, w, true)
        });
        let longsym: Vec<usize> = vec![1, 100, 127, 128, 255, 256, 257, 1000, 70000];
        m.family("long-symbols", "tables with 1..70000 symbols and symbols of 1..70000 bytes", longsym, |&n| {
            let mut t = SymbolTable::new();
            for i in 0..n {
                t.add_symbol(format!("s{i}"));
            }
            t.add_symbol("x".repeat(n));
            nontrivial();
            let p = tmp();
            ok("write", t.write(&p.0))?;
            trace();
            if ok("read", SymbolTable::read(&p.0))? != t || ok("text", SymbolTable::from_text_string(&t.text().unwrap()))? != t {
                return Err(format!("a table with {n} symbols does not survive"));
            }
            Ok(())
        });
        let labels = [(u32::MAX - 1, 7), (i32::MAX as u32, 1u32 << 31), (u32::MAX, 0)];
        m.family("labels", "extreme labels", Auts::new(2, 2, &labels), |a| {
            bin(a, t, false)?;
            text(a, t, false)
        });
        // other weight types, with extreme values
        let all: Vec<i32> = (0..12).collect();
        let one = |m: &Mc| Auts::new(2, 1, &[(1, 2), (0, 0)]).aw(&all).fw(&all[..m.pick(7, 12)]);
        m.family("tropical", "all 1-arc machines over 12 float weights (extremes)", one(m), |a| {
            bin(a, |c| TropicalWeight::new(fl(c)), false)?;
            text(a, |c| TropicalWeight::new(fl(c)), false)
        });
        m.family("log", "same in the log semiring", one(m), |a| {
            bin(a, |c| LogWeight::new(fl(c)), false)?;
            text(a, |c| LogWeight::new(fl(c)), false)
        });
        m.family("probability", "same in the probability semiring", one(m), |a| {
            bin(a, |c| ProbabilityWeight::new(fl(c)), false)?;
            text(a, |c| ProbabilityWeight::new(fl(c)), false)
        });
        m.family("integer", "same with integer weights", one(m), |a| {
            let w = |c: i32| IntegerWeight::new([0, 1, -1, 7, i32::MAX, i32::MIN, 100][c as usize % 7]);
            bin(a, w, false)?;
            text(a, w, false)
        });
        // the text row "s<tab>Infinity" marks a non-final state, so infinite string weights are not used on finals
        macro_rules! strs {
            ($name:expr, $t:ident) => {
                m.family($name, "1-arc machines over 5 string weights", Auts::new(2, 1, &[(1, 2), (0, 0)]).aw(&all[..6]).fw(&all[..5]), |a| {
                    let w = |c: i32| if c == 5 { $t::zero() } else { $t::from(st(c)) };
                    bin(a, w, false)?;
                    text(a, w, false)
                });
            };
        }
        strs!("string-left", StringWeightLeft);
        strs!("string-right", StringWeightRight);
        strs!("string-restrict", StringWeightRestrict);
        macro_rules! gal {
            ($name:expr, $t:ident) => {
                m.family($name, "1-arc machines over (string, weight) pairs", Auts::new(2, 1, &[(1, 2), (0, 0)]).aw(&all[..10]).fw(&all[..m.pick(6, 10)]), |a| {
                    let w = |c: i32| $t::<TropicalWeight>::from((st(c), TropicalWeight::new([0.0, 0.3][c as usize / 5])));
                    bin(a, w, false)?;
                    text(a, w, false)
                });
            };
        }
        gal!("gallic-left", GallicWeightLeft);
        gal!("gallic-right", GallicWeightRight);
        gal!("gallic-restrict", GallicWeightRestrict);
        gal!("gallic-min", GallicWeightMin);
        m.family("gallic", "1-arc machines over sets of up to 3 (string, weight) pairs", Auts::new(2, 1, &[(1, 2), (0, 0)]).aw(&all[..8]).fw(&all[1..8]), |a| {
            let w = |c: i32| {
                let n = c as usize % 4;
                GallicWeight::<TropicalWeight>::new((0..n).map(|i| GallicWeightRestrict::from((st(i as i32 + c / 4), TropicalWeight::new(i as f32 + 0.5)))).collect())
            };
            bin(a, w, false)?;
            text(a, w, false)
        });
        m.family("product", "1-arc machines over (tropical, integer) pairs", Auts::new(2, 1, &[(1, 2), (0, 0)]).aw(&all[..10]).fw(&all[..10]), |a| {
            let w = |c: i32| ProductWeight::<TropicalWeight, IntegerWeight>::from((TropicalWeight::new(fl(c)), IntegerWeight::new(c - 3)));
            bin(a, w, false)?;
            text(a, w, false)
        });
        m.family("symbol-tables", "all sequences of <=4 (5) additions over 7 symbols incl. empty, accented, spaced ones", Seqs { m: 7, kmin: 0, kmax: m.pick(4, 5) }, |v| {
            symtab(v, true)?;
            symtab(v, false)
        });
        let mut fa = vec![Aut::empty()];
        fa.extend(Auts::new(2, 2, &p[..2]).aw(&[1]).fw(&[1]).collect(|a| a.is_canonical()));
        m.family("write-faults", "each machine x every byte position at which the writer fails x 3 write granularities, and a full device", fa, faults);
        m.assumptions = vec!["a final weight equal to zero means non-final; text drops machines without start and trailing states that no row mentions".into()];
        let _ = std::fs::remove_dir(scratch());
    })
}
