//! C32: every command of the command-line tool, with every combination of its options, on all small machines:
//! the file it writes is what the library operation gives, and a failure is reported by the exit status.
use mc::aut::*;
use mc::harness::*;
use mc::*;
use rustfst::algorithms::compose::compose;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::tr_compares::*;
use rustfst::algorithms::*;
use rustfst::fst_impls::VectorFst;
use rustfst::fst_traits::*;
use rustfst::prelude::{TropicalWeight as T, *};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type F = VectorFst<T>;
type Lib = Box<dyn Fn(F) -> anyhow::Result<F> + Send + Sync>;
#[derive(Clone)]
struct Cmd {
    args: Vec<String>,
    lib: Arc<Lib>,
    /// only run on machines on which the operation is known to terminate
    acyclic: bool,
    /// the library's answer may depend on hashing: compare relations
    rel: bool,
}
impl std::fmt::Debug for Cmd {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.args.join(" "))
    }
}
fn cmd(a: &str, f: impl Fn(F) -> anyhow::Result<F> + Send + Sync + 'static) -> Cmd {
    Cmd { args: a.split_whitespace().map(String::from).collect(), lib: Arc::new(Box::new(f)), acyclic: false, rel: false }
}
impl Cmd {
    fn dag(mut self) -> Self {
        self.acyclic = true;
        self
    }
    fn rel(mut self) -> Self {
        self.rel = true;
        self
    }
}
fn commands() -> Vec<Cmd> {
    let mut v = vec![];
    for (o, n) in [("", false), ("--allow-nondet", true)] {
        v.push(
            cmd(&format!("minimize {o}"), move |mut f| {
                minimize_with_config(&mut f, MinimizeConfig::default().with_allow_nondet(n))?;
                Ok(f)
            })
            .dag()
            .rel(),
        );
    }
    for (o, t) in [
        ("", DeterminizeType::DeterminizeFunctional),
        ("--det_type functional", DeterminizeType::DeterminizeFunctional),
        ("--det_type nonfunctional", DeterminizeType::DeterminizeNonFunctional),
        ("--det_type disambiguate", DeterminizeType::DeterminizeDisambiguate),
    ] {
        v.push(cmd(&format!("determinize {o}"), move |f| determinize_with_config(&f, DeterminizeConfig::default().with_det_type(t))).dag().rel());
    }
    v.push(cmd("connect", |mut f| {
        connect(&mut f)?;
        Ok(f)
    }));
    for (o, i) in [("tr_sort", true), ("tr_sort --sort_type ilabel", true), ("arcsort --sort_type olabel", false), ("tr_sort --sort_type=olabel", false)] {
        v.push(cmd(o, move |mut f| {
            if i {
                tr_sort(&mut f, ILabelCompare {})
            } else {
                tr_sort(&mut f, OLabelCompare {})
            }
            Ok(f)
        }));
    }
    v.push(
        cmd("optimize", |mut f| {
            optimize(&mut f)?;
            Ok(f)
        })
        .dag()
        .rel(),
    );
    for (o, t) in [("project", ProjectType::ProjectInput), ("project --project-output", ProjectType::ProjectOutput)] {
        v.push(cmd(o, move |mut f| {
            project(&mut f, t);
            Ok(f)
        }));
    }
    v.push(cmd("invert", |mut f| {
        invert(&mut f);
        Ok(f)
    }));
    v.push(cmd("topsort", |mut f| {
        top_sort(&mut f)?;
        Ok(f)
    }));
    v.push(cmd("reverse", |f| reverse(&f)));
    v.push(cmd("rmfinalepsilon", |mut f| {
        rm_final_epsilon(&mut f)?;
        Ok(f)
    }));
    for n in [1usize, 2, 3] {
        for u in [false, true] {
            let o = format!("shortestpath {} {}", if n == 1 && u { String::new() } else { format!("--nshortest {n}") }, if u { "--unique" } else { "" });
            let c = cmd(&o, move |f| shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(n).with_unique(u))).rel();
            v.push(c.dag());
        }
    }
    for m in 0..32 {
        let b = |k: u32| m >> k & 1 == 1;
        let mut o = String::from("push");
        let mut t = PushType::empty();
        for (k, n, p) in [
            (0, "push_weights", PushType::PUSH_WEIGHTS),
            (1, "push_labels", PushType::PUSH_LABELS),
            (2, "remove_total_weight", PushType::REMOVE_TOTAL_WEIGHT),
            (3, "remove_common_affix", PushType::REMOVE_COMMON_AFFIX),
        ] {
            if b(k) {
                o += &format!(" --{n}");
                t.insert(p);
            }
        }
        let r = if b(4) {
            o += " --to_final";
            ReweightType::ReweightToFinal
        } else {
            ReweightType::ReweightToInitial
        };
        v.push(cmd(&o, move |f| push(&f, r, t)).dag().rel());
    }
    for n in ["arc_sum", "tr_sum"] {
        v.push(cmd(&format!("map --map_type {n}"), |mut f| {
            tr_sum(&mut f);
            Ok(f)
        }));
    }
    for n in ["arc_unique", "tr_unique"] {
        v.push(cmd(&format!("map --map_type {n}"), |mut f| {
            tr_unique(&mut f);
            Ok(f)
        }));
    }
    macro_rules! map {
        ($o:expr, $m:expr) => {
            v.push(cmd($o, move |mut f| {
                tr_map(&mut f, &$m)?;
                Ok(f)
            }))
        };
    }
    map!("map", tr_mappers::IdentityTrMapper {});
    map!("map --map_type identity", tr_mappers::IdentityTrMapper {});
    map!("map --map_type input_epsilon", tr_mappers::InputEpsilonMapper {});
    map!("map --map_type output_epsilon", tr_mappers::OutputEpsilonMapper {});
    map!("map --map_type invert", tr_mappers::InvertWeightMapper {});
    map!("map --map_type rmweight", tr_mappers::RmWeightMapper {});
    map!("map --map_type quantize", tr_mappers::QuantizeMapper::default());
    map!("map --map_type plus --weight 1.5", tr_mappers::PlusMapper::new(1.5f32));
    map!("map --weight 1.5 --map_type times", tr_mappers::TimesMapper::new(1.5f32));
    v
}
fn bin() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("rustfst-cli")
}
static N: AtomicUsize = AtomicUsize::new(0);
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let d = bin().parent().unwrap().join(format!("c32-scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn p(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().into()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// exit status is success, standard output
fn invoke(args: &[String]) -> Result<(bool, String), String> {
    let o = Command::new(bin()).args(args).env("RUST_LOG", "off").stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| format!("cannot run the tool: {e}"))?;
    trace();
    Ok((o.status.success(), String::from_utf8_lossy(&o.stdout).into()))
}
fn machine(a: &Aut) -> F {
    let m: M<T> = a.model(|_, c| T::new(c as f32), |_, c| T::new(c as f32));
    let mut f = m.to_fst();
    if a.arcs.len() % 2 == 1 {
        f.set_input_symbols(Arc::new(rustfst::symt!["x", "y"]));
    }
    if a.n % 2 == 0 {
        f.set_output_symbols(Arc::new(rustfst::symt!["p", "q", "r"]));
    }
    f
}
fn same(what: &str, got: &F, want: &F, rel: bool) -> Result<(), String> {
    let (g, w) = (M::of(got)?, M::of(want)?);
    if got.input_symbols() != want.input_symbols() || got.output_symbols() != want.output_symbols() {
        return Err(format!("{what}: symbol tables differ from the library's"));
    }
    if g == w {
        return Ok(());
    }
    if !rel || g.n() != w.n() || g.num_arcs() != w.num_arcs() {
        return Err(format!("{what}: the tool wrote {g:?}, the library gives {w:?}"));
    }
    let near = |x: &T, y: &T| (x.value() - y.value()).abs() < 0.01 || x == y;
    cmp_rel(what, &rel_of(got, 4, 4)?, &rel_of(want, 4, 4)?, near)
}
fn unary(c: &Cmd, a: &Aut) -> Result<(), String> {
    if c.acyclic && !a.is_acyclic() {
        skip();
        return Ok(());
    }
    let d = Dir::new();
    let (i, o) = (d.p("in.fst"), d.p("out.fst"));
    ok("write", machine(a).write(&i))?;
    let input = std::fs::read(&i).unwrap();
    let lib = no_panic("library", || (c.lib)(VectorFst::read(&i)?));
    states(a.n as u64);
    transitions(a.arcs.len() as u64);
    for bench in [None, Some((0, 1)), Some((1, 2))] {
        if bench.is_some() && a.arcs.len() != 2 {
            continue;
        }
        let _ = std::fs::remove_file(&o);
        let mut args = c.args.clone();
        args.extend([i.clone(), o.clone()]);
        if let Some((w, n)) = bench {
            args.extend(["--bench".into(), "--n_warm_ups".into(), w.to_string(), "--n_iters".into(), n.to_string(), "--export-markdown".into(), d.p("r.md")]);
        }
        let what = format!("{c:?}{}", if bench.is_some() { " --bench" } else { "" });
        let (good, out) = invoke(&args)?;
        if std::fs::read(&i).unwrap() != input {
            return Err(format!("{what}: the input file was changed"));
        }
        match &lib {
            Ok(Ok(w)) => {
                if !good {
                    return Err(format!("{what}: the tool fails, the library does not"));
                }
                let got = ok(&what, F::read(&o))?;
                same(&what, &got, w, c.rel)?;
                nontrivial();
                if bench.is_none() && out.contains("benchmark") {
                    return Err(format!("{what}: a benchmark was run without being asked for"));
                }
                if let Some((w, n)) = bench {
                    if out.matches("Run #").count() != n || out.matches("Warmup #").count() != w || !std::fs::metadata(d.p("r.md")).is_ok() {
                        return Err(format!("{what}: not {w} warm-ups and {n} runs, or no report"));
                    }
                }
            }
            _ => {
                if good {
                    return Err(format!("{what}: the operation fails ({lib:?}) but the tool exits with success"));
                }
                if std::fs::metadata(&o).is_ok() {
                    return Err(format!("{what}: the operation fails but an output file was written"));
                }
                nontrivial();
            }
        }
    }
    Ok(())
}
fn binary(la: bool, opt: &str, a: &Aut, b: &Aut) -> Result<(), String> {
    let d = Dir::new();
    let (i, j, o) = (d.p("1.fst"), d.p("2.fst"), d.p("out.fst"));
    ok("write", machine(a).write(&i))?;
    let mut second = machine(b);
    if b.n == 2 {
        tr_sort(&mut second, ILabelCompare {});
    }
    ok("write", second.write(&j))?;
    let mut args = vec!["compose".to_string()];
    args.extend(opt.split_whitespace().map(String::from));
    args.extend([i.clone(), j.clone(), o.clone()]);
    let (good, out) = invoke(&args)?;
    let what = format!("compose {opt}");
    if out.contains("benchmark") {
        return Err(format!("{what}: a benchmark was run without being asked for"));
    }
    let (x, mut y) = (ok("read", F::read(&i))?, ok("read", F::read(&j))?);
    if la {
        tr_sort(&mut y, ILabelCompare {});
    }
    let lib: anyhow::Result<F> = compose::<T, F, F, _, _, _>(&x, &y);
    match lib {
        Ok(w) => {
            if !good {
                return Err(format!("{what}: the tool fails, the library does not"));
            }
            let got = ok(&what, F::read(&o))?;
            if la {
                cmp_rel(&what, &rel_of(&got, 3, 3)?, &rel_of(&w, 3, 3)?, |x, y| (x.value() - y.value()).abs() < 0.01 || x == y)?;
            } else {
                same(&what, &got, &w, true)?;
            }
            nontrivial();
        }
        Err(_) => {
            if good || std::fs::metadata(&o).is_ok() {
                return Err(format!("{what}: the operation fails but the tool exits with success or writes a file"));
            }
        }
    }
    Ok(())
}
/// Command lines that must fail.
fn wrong(line: &&str) -> Result<(), String> {
    let d = Dir::new();
    let a = Aut { n: 2, start: Some(0), fin: vec![None, Some(1)], arcs: vec![Arc5 { s: 0, i: 1, o: 1, w: 1, d: 1 }] };
    ok("write", machine(&a).write(d.p("in.fst")))?;
    std::fs::write(d.p("bad.fst"), b"not an fst at all").unwrap();
    let full = std::fs::read(d.p("in.fst")).unwrap();
    std::fs::write(d.p("cut.fst"), &full[..full.len() - 3]).unwrap();
    let args: Vec<String> = line
        .split_whitespace()
        .map(|w| match w {
            "IN" => d.p("in.fst"),
            "OUT" => d.p("out.fst"),
            "BAD" => d.p("bad.fst"),
            "CUT" => d.p("cut.fst"),
            "NONE" => d.p("no/such/file"),
            "FULL" => "/dev/full".into(),
            _ => w.into(),
        })
        .collect();
    let (good, _) = invoke(&args)?;
    nontrivial();
    if good {
        return Err(format!("{line}: exits with success"));
    }
    if std::fs::metadata(d.p("out.fst")).is_ok() {
        return Err(format!("{line}: wrote an output file"));
    }
    Ok(())
}
fn main() {
    run("C32", "model_checking", |m| {
        let p = [(1, 1), (1, 2), (0, 1), (0, 0)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 1, &p[..2]).aw(&[1]).fw(&[0, 2]).all_starts().collect(|_| true));
        let two = Auts::new(2, 2, &p).aw(&[1, 2]).fw(&[0, 1]).collect(|a| a.fin[1].is_some() && a.arcs.windows(2).all(|w| w[0].w >= w[1].w) && a.arcs.iter().all(|t| t.s <= t.d));
        let step = m.pick(9, 2);
        v.extend(two.into_iter().enumerate().filter(|(k, _)| k % step == 0).map(|(_, a)| a));
        v.extend(riches(&[0, 1, 2, 3, 4], m.pick(&[4][..], &[4, 5, 7][..]), 1, &[0, 1, 2]));
        m.family("one file", "every command x every combination of its options x small machines (every 9th (2nd) two-state machine, patterned ones of 4 (7) states), with and without --bench: the file written is the library's result, failures give a non-zero status and no file", Prod(commands(), v), |(c, a)| unary(c, a));
        let acc = [(1, 1), (1, 2), (2, 0), (0, 1)];
        let a: Vec<Aut> = Auts::new(2, 2, &acc).aw(&[1]).fw(&[0]).collect(|a| a.is_trim());
        let b: Vec<Aut> = Auts::new(2, m.pick(1, 2), &[(1, 2), (2, 1), (0, 1)]).aw(&[2]).fw(&[1]).collect(|a| a.is_trim()).into_iter().chain([Aut { n: 3, start: Some(0), fin: vec![None, Some(0), Some(0)], arcs: vec![Arc5 { s: 0, i: 2, o: 2, w: 0, d: 1 }, Arc5 { s: 0, i: 1, o: 1, w: 0, d: 2 }] }]).collect();
        m.family("two files", "compose, default and look-ahead, on all trim operand pairs of 2 states (one operand unsorted)", Prod(Prod(a, b), vec!["", "--compose_type default", "--compose_type lookahead"]), |((a, b), o)| binary(o.contains("look"), o, a, b));
        let lines = vec![
            "", "nosuchcommand IN OUT", "connect", "connect IN", "connect NONE OUT", "connect BAD OUT", "connect CUT OUT", "invert CUT OUT", "connect IN NONE", "connect IN FULL", "reverse IN FULL", "compose IN", "compose IN IN",
            "compose NONE IN OUT", "compose IN NONE OUT", "compose IN BAD OUT", "compose CUT IN OUT", "compose IN IN NONE", "compose IN IN FULL", "compose --compose_type other IN IN OUT", "map --map_type other IN OUT", "map --map_type plus IN OUT",
            "map --map_type times IN OUT", "map --map_type plus --weight x IN OUT", "shortestpath --nshortest x IN OUT", "tr_sort --sort_type other IN OUT", "determinize --det_type other IN OUT", "connect IN OUT extra", "connect --nosuchoption IN OUT",
            "push BAD OUT", "optimize BAD OUT", "minimize BAD OUT", "project BAD OUT", "topsort BAD OUT", "rmfinalepsilon BAD OUT", "determinize BAD OUT", "shortestpath BAD OUT", "tr_sort BAD OUT", "map BAD OUT", "reverse BAD OUT",
            "connect BAD OUT --bench", "compose BAD IN OUT --bench",
        ];
        m.family("wrong command lines", "unreadable, missing and cut input files, unwritable outputs, unknown commands, options and values: a non-zero status and no output file", lines, wrong);
        m.assumptions = vec!["operations that may not terminate on cyclic machines are run on acyclic ones only".into(), "results that depend on hashing are compared by size and relation".into()];
    })
}
