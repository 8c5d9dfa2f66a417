//! C31: the C interface mirrors the library and reports failures as statuses.
//! Every machine is built and read back only through exported functions; the mirror is a library machine.
use mc::*;
use rustfst::algorithms::compose::{
    compose, compose_with_config, ComposeConfig, ComposeFilterEnum, MatcherConfig, SigmaMatcherConfig,
};
use rustfst::algorithms::compose::matchers::MatcherRewriteMode;
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::determinize::{determinize, determinize_with_config, DeterminizeConfig, DeterminizeType};
use rustfst::algorithms::randgen::{randgen_with_config, RandGenConfig, UniformTrSelector};
use rustfst::algorithms::replace::replace;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::union::union;
use rustfst::algorithms::weight_converters::SimpleWeightConverter;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::{DrawingConfig, KDELTA};
use rustfst_ffi::algorithms as fa;
use rustfst_ffi::fst::{concat_fst as fcc, const_fst as fc, utils as fu, vector_fst as fv, *};
use rustfst_ffi::iterators as fi;
use rustfst_ffi::string_path as fsp;
use rustfst_ffi::string_paths_iterator as fsi;
use rustfst_ffi::symbol_table as fs;
use rustfst_ffi::tr as ft;
use rustfst_ffi::trs as fts;
use rustfst_ffi::RUSTFST_FFI_RESULT as R;
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};
use std::sync::Arc;

type V = VectorFst<TropicalWeight>;
type MT = M<TropicalWeight>;
type Res<T> = Result<T, String>;

extern "C" {
    fn fst_minimize(ptr: *mut CFst) -> R;
    fn fst_minimize_config_new(delta: f32, allow_nondet: bool, ptr: *mut *const libc::c_void) -> R;
    fn fst_minimize_with_config(ptr: *mut CFst, config: *const libc::c_void) -> R;
}

fn last_error() -> Res<String> {
    unsafe {
        let mut p: *mut libc::c_char = null_mut();
        if rustfst_ffi::rustfst_ffi_get_last_error(&mut p) != R::RUSTFST_FFI_RESULT_OK || p.is_null() {
            return Err("the error message cannot be retrieved".into());
        }
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        rustfst_ffi::rustfst_destroy_string(p);
        Ok(s)
    }
}
/// Status of a call; a failure must come with a retrievable message, given out once.
fn st(what: &str, r: R) -> Res<bool> {
    transitions(1);
    if r == R::RUSTFST_FFI_RESULT_OK {
        return Ok(true);
    }
    let m = last_error().map_err(|e| format!("{what} failed and {e}"))?;
    if m.is_empty() || m == "No error message" {
        return Err(format!("{what} failed without a message"));
    }
    let again = last_error()?;
    if again != "No error message" {
        return Err(format!("{what}: message still there after having been taken: {again}"));
    }
    Ok(false)
}
fn must(what: &str, r: R) -> Res<()> {
    if !st(what, r)? {
        return Err(format!("{what} reported a failure"));
    }
    Ok(())
}
fn same_status(what: &str, r: R, lib_ok: bool) -> Res<bool> {
    let g = st(what, r)?;
    if g != lib_ok {
        return Err(format!("{what}: status {} but the library operation {}", if g { "OK" } else { "KO" }, if lib_ok { "succeeds" } else { "fails" }));
    }
    Ok(g)
}

macro_rules! refuse {
    ($($what:expr, $r:expr;)*) => {
        $(
            let r = $r;
            if st($what, r)? {
                return Err(format!("{} reports success", $what));
            }
        )*
    };
}

/// An owned machine handle.
struct H(*const CFst);
impl H {
    fn m(&self) -> *mut CFst {
        self.0 as *mut CFst
    }
    fn new() -> Res<H> {
        let mut p: *const CFst = null();
        must("vec_fst_new", unsafe { fv::vec_fst_new(&mut p) })?;
        Ok(H(p))
    }
}
impl Drop for H {
    fn drop(&mut self) {
        unsafe { fst_destroy(self.m()) };
    }
}
fn w(c: i32) -> f32 {
    c as f32 / 2.0
}
fn c_tr(i: Label, o: Label, wt: f32, d: StateId) -> Res<*mut ft::CTr> {
    let mut p: *const ft::CTr = null();
    must("tr_new", unsafe { ft::tr_new(i, o, wt, d, &mut p) })?;
    Ok(p as *mut ft::CTr)
}
fn rd_tr(p: *const ft::CTr) -> Res<(Label, Label, TropicalWeight, usize)> {
    let (mut i, mut o, mut wt, mut d) = (77, 77, 77.0f32, 77);
    unsafe {
        must("tr_ilabel", ft::tr_ilabel(p, &mut i))?;
        must("tr_olabel", ft::tr_olabel(p, &mut o))?;
        must("tr_weight", ft::tr_weight(p, &mut wt))?;
        must("tr_next_state", ft::tr_next_state(p, &mut d))?;
    }
    Ok((i, o, TropicalWeight::new(wt), d as usize))
}
/// Builds through the interface.
fn build(a: &Aut) -> Res<H> {
    let h = H::new()?;
    unsafe {
        for s in 0..a.n {
            let mut id = 99;
            must("vec_fst_add_state", fv::vec_fst_add_state(h.m(), &mut id))?;
            if id as usize != s {
                return Err(format!("vec_fst_add_state gave {id} for state {s}"));
            }
        }
        if let Some(s) = a.start {
            must("vec_fst_set_start", fv::vec_fst_set_start(h.m(), s as StateId))?;
        }
        for s in 0..a.n {
            if let Some(c) = a.fin[s] {
                must("vec_fst_set_final", fv::vec_fst_set_final(h.m(), s as StateId, w(c)))?;
            }
        }
        for t in &a.arcs {
            let tr = c_tr(t.i, t.o, w(t.w), t.d as StateId)?;
            must("vec_fst_add_tr", fv::vec_fst_add_tr(h.m(), t.s as StateId, tr))?;
            must("tr_delete", ft::tr_delete(tr))?;
        }
    }
    Ok(h)
}
/// The mirror, built by the same steps (flags depend on them).
fn lib(a: &Aut) -> V {
    let mut f = V::new();
    for _ in 0..a.n {
        f.add_state();
    }
    if let Some(s) = a.start {
        f.set_start(s as StateId).unwrap();
    }
    for s in 0..a.n {
        if let Some(c) = a.fin[s] {
            f.set_final(s as StateId, w(c)).unwrap();
        }
    }
    for t in &a.arcs {
        f.add_tr(t.s as StateId, Tr::new(t.i, t.o, w(t.w), t.d as StateId)).unwrap();
    }
    f
}

/// Transitions leaving a state, through the three readers.
fn rd_trs(h: *mut CFst, s: StateId) -> Res<Vec<(Label, Label, TropicalWeight, usize)>> {
    let mut v = vec![];
    unsafe {
        let mut n = 999usize;
        must("fst_num_trs", fst_num_trs(h, s, &mut n))?;
        let mut it: *const fi::CTrsIterator = null();
        must("trs_iterator_new", fi::trs_iterator_new(h, s, &mut it))?;
        if it.is_null() {
            return Err(format!("trs_iterator_new({s}) gave no iterator"));
        }
        let it = it as *mut fi::CTrsIterator;
        loop {
            let mut done = 9usize;
            must("trs_iterator_done", fi::trs_iterator_done(it, &mut done))?;
            if done != 0 {
                break;
            }
            if v.len() > n {
                return Err(format!("transition iterator of state {s} goes past {n} transitions"));
            }
            let mut p: *const ft::CTr = null();
            must("trs_iterator_next", fi::trs_iterator_next(it, &mut p))?;
            if p.is_null() {
                return Err("trs_iterator_next gave nothing before the end".into());
            }
            v.push(rd_tr(p)?);
            must("tr_delete", ft::tr_delete(p as *mut _))?;
        }
        must("trs_iterator_destroy", fi::trs_iterator_destroy(it))?;
        if v.len() != n {
            return Err(format!("fst_num_trs({s}) = {n} but {} transitions are iterated", v.len()));
        }
        let mut ts: *const fts::CTrs = null();
        must("fst_get_trs", fst_get_trs(h, s, &mut ts))?;
        let ts = ts as *mut fts::CTrs;
        let mut cl: *const fts::CTrs = null();
        must("trs_vec_shallow_clone", fts::trs_vec_shallow_clone(ts, &mut cl))?;
        let cl = cl as *mut fts::CTrs;
        let mut u = vec![];
        loop {
            let mut l = 999usize;
            must("trs_vec_len", fts::trs_vec_len(cl, &mut l))?;
            if l == 0 {
                break;
            }
            let mut p: *const ft::CTr = null();
            must("trs_vec_remove", fts::trs_vec_remove(cl, 0, &mut p))?;
            u.push(rd_tr(p)?);
            ft::tr_delete(p as *mut _);
            if u.len() > n {
                break;
            }
        }
        let mut l = 999usize;
        must("trs_vec_len", fts::trs_vec_len(ts, &mut l))?;
        must("trs_vec_delete", fts::trs_vec_delete(cl))?;
        must("trs_vec_delete", fts::trs_vec_delete(ts))?;
        if u != v || l != n {
            return Err(format!("fst_get_trs({s}) gives {u:?} (then length {l}), the iterator {v:?}"));
        }
    }
    Ok(v)
}
fn rd_symt(p: *const fs::CSymbolTable) -> Res<Vec<(Label, String)>> {
    let mut v = vec![];
    unsafe {
        let mut n = 999usize;
        must("symt_num_symbols", fs::symt_num_symbols(p, &mut n))?;
        for k in 0..n as Label {
            let mut s: *const libc::c_char = null();
            must("symt_find_index", fs::symt_find_index(p, k, &mut s))?;
            v.push((k, take_str(s)?));
        }
    }
    Ok(v)
}
fn take_str(p: *const libc::c_char) -> Res<String> {
    if p.is_null() {
        return Err("null string".into());
    }
    unsafe {
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        must("rustfst_destroy_string", rustfst_ffi::rustfst_destroy_string(p as *mut _))?;
        Ok(s)
    }
}
type Tabs = [Option<Vec<(Label, String)>>; 2];
fn rd_tabs(h: *mut CFst) -> Res<Tabs> {
    let mut t: Tabs = [None, None];
    unsafe {
        for k in 0..2 {
            let mut p: *const fs::CSymbolTable = null();
            must("fst_*_symbols", if k == 0 { fst_input_symbols(h, &mut p) } else { fst_output_symbols(h, &mut p) })?;
            if !p.is_null() {
                t[k] = Some(rd_symt(p)?);
                must("symt_destroy", fs::symt_destroy(p as *mut _))?;
            }
        }
    }
    Ok(t)
}
fn lib_tabs(f: &V) -> Tabs {
    let g = |t: Option<&Arc<SymbolTable>>| t.map(|t| t.iter().map(|(l, s)| (l, s.to_string())).collect::<Vec<_>>());
    [g(f.input_symbols()), g(f.output_symbols())]
}
/// Reads start, finals and transitions of the first `n` states (`n` from the caller for delayed machines).
fn rd_n(h: *mut CFst, n: usize) -> Res<MT> {
    let mut m = MT { start: None, fin: vec![], arcs: vec![] };
    unsafe {
        let mut s0: StateId = 4_000_000_000;
        must("fst_start", fst_start(h, &mut s0))?;
        if s0 != 4_000_000_000 {
            m.start = Some(s0 as usize);
        }
        for s in 0..n as StateId {
            let (mut is, mut fin, mut fw) = (9usize, 9usize, -77.0f32);
            must("fst_is_start", fst_is_start(h, s, &mut is))?;
            if (is != 0) != (m.start == Some(s as usize)) {
                return Err(format!("fst_is_start({s}) = {is} but fst_start gives {:?}", m.start));
            }
            must("fst_is_final", fst_is_final(h, s, &mut fin))?;
            must("fst_final_weight", fst_final_weight(h, s, &mut fw))?;
            if (fin != 0) != (fw != -77.0) {
                return Err(format!("fst_is_final({s}) = {fin} but fst_final_weight gives {fw}"));
            }
            m.fin.push(if fin != 0 { Some(TropicalWeight::new(fw)) } else { None });
            m.arcs.push(rd_trs(h, s)?);
        }
    }
    Ok(m)
}
fn rd(h: &H) -> Res<MT> {
    let mut n = 999usize;
    must("vec_fst_num_states", unsafe { fv::vec_fst_num_states(h.m(), &mut n) })?;
    let mut it: *const fi::CStateIterator = null();
    must("state_iterator_new", unsafe { fi::state_iterator_new(h.m() as *mut _, &mut it) })?;
    let it = it as *mut fi::CStateIterator;
    for s in 0..n as StateId {
        let (mut d, mut x) = (9usize, 4_000_000_000);
        must("state_iterator_done", unsafe { fi::state_iterator_done(it, &mut d) })?;
        must("state_iterator_next", unsafe { fi::state_iterator_next(it, &mut x) })?;
        if d != 0 || x != s {
            return Err(format!("state iterator at {s} of {n}: done {d}, state {x}"));
        }
    }
    let mut d = 9usize;
    must("state_iterator_done", unsafe { fi::state_iterator_done(it, &mut d) })?;
    must("state_iterator_destroy", unsafe { fi::state_iterator_destroy(it) })?;
    if d == 0 {
        return Err(format!("state iterator not done after {n} states"));
    }
    rd_n(h.m(), n)
}
/// Same machine and tables; transitions of a state compared as a multiset (hash order varies between runs).
fn sorted(m: &MT) -> MT {
    let mut m = m.clone();
    for v in &mut m.arcs {
        v.sort_by(|a, b| (a.0, a.1, a.3).cmp(&(b.0, b.1, b.3)).then(a.2.value().partial_cmp(b.2.value()).unwrap()));
    }
    m
}
fn same(what: &str, h: &H, f: &V, rerun: &dyn Fn() -> Option<V>) -> Res<()> {
    let g = rd(h).map_err(|e| format!("after {what}: {e}"))?;
    let t = rd_tabs(h.m())?;
    states(g.n() as u64 + 1);
    let want = M::of(f)?;
    if t != lib_tabs(f) {
        return Err(format!("{what}: tables {t:?}, library {:?}", lib_tabs(f)));
    }
    if g == want {
        return Ok(());
    }
    for _ in 0..8 {
        if let Some(x) = rerun() {
            if sorted(&M::of(&x)?) == sorted(&g) {
                return Ok(());
            }
        }
    }
    Err(format!("{what}: interface gives {g:?}\nlibrary gives {want:?}"))
}
fn never() -> Option<V> {
    None
}
fn out(p: *const CFst) -> Res<H> {
    if p.is_null() {
        return Err("success without a result".into());
    }
    Ok(H(p))
}

fn table(k: usize) -> SymbolTable {
    let mut t = SymbolTable::new();
    for s in [&["a", "b"][..], &["b", "c", "a"][..], &["x"][..]][k] {
        t.add_symbol(*s);
    }
    t
}
struct S(*const fs::CSymbolTable);
impl S {
    fn m(&self) -> *mut fs::CSymbolTable {
        self.0 as *mut _
    }
}
impl Drop for S {
    fn drop(&mut self) {
        unsafe { fs::symt_destroy(self.m()) };
    }
}
fn c_table(t: &SymbolTable) -> Res<S> {
    let mut p: *const fs::CSymbolTable = null();
    unsafe {
        must("symt_new", fs::symt_new(&mut p))?;
        for (l, s) in t.iter() {
            if l == 0 {
                continue;
            }
            let c = CString::new(s).unwrap();
            let mut k = 999usize;
            must("symt_add_symbol", fs::symt_add_symbol(p as *mut _, c.as_ptr(), &mut k))?;
            if k as Label != l {
                return Err(format!("symt_add_symbol gave {k} for {s}, library {l}"));
            }
        }
    }
    Ok(S(p))
}

const BAD: StateId = 9;
#[derive(Clone, Debug)]
enum Op {
    AddState,
    SetStart(StateId),
    SetFinal(StateId, i32),
    DelFinal(StateId),
    AddTr(StateId, Label, Label, i32, StateId),
    DelStates,
    MutSet(StateId, usize, Label),
    Copy,
    Bytes,
    Attach(usize, usize),
    Detach(usize),
    Sort(bool),
    UnionSelf,
    ConcatSelf,
    Relabel,
}
fn ops() -> Vec<Op> {
    use Op::*;
    let mut v = vec![AddState, DelStates, Copy, Bytes, UnionSelf, ConcatSelf, Relabel, Sort(true), Sort(false)];
    for s in [0, 1, BAD] {
        v.push(SetStart(s));
        v.push(SetFinal(s, 1));
        v.push(DelFinal(s));
        v.push(AddTr(s, 2, 1, 2, 0));
        v.push(MutSet(s, 0, 3));
    }
    v.push(MutSet(0, 1, 0));
    v.push(AddTr(0, 0, 2, 0, 1));
    v.push(SetFinal(0, 0));
    v.push(Attach(0, 0));
    v.push(Attach(1, 1));
    v.push(Detach(0));
    v.push(Detach(1));
    v
}
/// Applies one operation to both sides.
fn step(h: H, f: &mut V, op: &Op) -> Res<H> {
    use Op::*;
    let what = format!("{op:?}");
    unsafe {
        match op {
            AddState => {
                let mut id = 999;
                must(&what, fv::vec_fst_add_state(h.m(), &mut id))?;
                if id != f.add_state() {
                    return Err(format!("{what} gave {id}"));
                }
            }
            SetStart(s) => {
                same_status(&what, fv::vec_fst_set_start(h.m(), *s), f.set_start(*s).is_ok())?;
            }
            SetFinal(s, c) => {
                same_status(&what, fv::vec_fst_set_final(h.m(), *s, w(*c)), f.set_final(*s, w(*c)).is_ok())?;
            }
            DelFinal(s) => {
                same_status(&what, fv::vec_fst_del_final_weight(h.m(), *s), f.delete_final_weight(*s).is_ok())?;
            }
            AddTr(s, i, o, c, d) => {
                if *d as usize >= f.num_states() {
                    return Ok(h);
                }
                let tr = c_tr(*i, *o, w(*c), *d)?;
                let r = fv::vec_fst_add_tr(h.m(), *s, tr);
                ft::tr_delete(tr);
                same_status(&what, r, f.add_tr(*s, Tr::new(*i, *o, w(*c), *d)).is_ok())?;
            }
            DelStates => {
                must(&what, fv::vec_fst_delete_states(h.m()))?;
                f.del_all_states();
            }
            MutSet(s, k, l) => {
                let mut it: *const fi::CMutTrsIterator = null();
                let r = fi::mut_trs_iterator_new(h.m() as *mut _, *s, &mut it);
                let mut lit = f.tr_iter_mut(*s);
                if same_status("mut_trs_iterator_new", r, lit.is_ok())? {
                    if it.is_null() {
                        return Err("mut_trs_iterator_new gave no iterator".into());
                    }
                    let it = it as *mut fi::CMutTrsIterator;
                    for _ in 0..*k {
                        must("mut_trs_iterator_next", fi::mut_trs_iterator_next(it))?;
                    }
                    let tr = c_tr(*l, 1, 1.0, 0)?;
                    let r = fi::mut_trs_iterator_set_value(it, tr);
                    let b = lit.as_mut().unwrap().set_tr(*k, Tr::new(*l, 1, 1.0, 0)).is_ok();
                    ft::tr_delete(tr);
                    same_status("mut_trs_iterator_set_value", r, b)?;
                    must("mut_trs_iterator_destroy", fi::mut_trs_iterator_destroy(it))?;
                }
            }
            Copy => {
                let mut p: *const CFst = null();
                must(&what, fv::vec_fst_copy(h.m(), &mut p))?;
                let g = out(p)?;
                let mut e = 9usize;
                must("vec_fst_equals", fv::vec_fst_equals(h.m(), g.m(), &mut e))?;
                if e != 1 {
                    return Err(format!("a copy is not equal to its original ({e})"));
                }
                // the original must be independent of the copy
                let mut id = 0;
                must("add_state", fv::vec_fst_add_state(h.m(), &mut id))?;
                must("vec_fst_equals", fv::vec_fst_equals(h.m(), g.m(), &mut e))?;
                if e != 0 {
                    return Err("a changed machine still equals its copy".into());
                }
                return Ok(g);
            }
            Bytes => {
                let mut b: *const ffi_convert::CArray<u8> = null();
                must("vec_fst_to_bytes", fv::vec_fst_to_bytes(h.m(), &mut b))?;
                let mut p: *const CFst = null();
                must("vec_fst_from_bytes", fv::vec_fst_from_bytes(b, &mut p))?;
                use ffi_convert::RawPointerConverter;
                let _ = ffi_convert::CArray::<u8>::from_raw_pointer(b);
                let mut v = vec![];
                ok("store", f.store(&mut v))?;
                *f = ok("load", V::load(&v))?;
                return out(p);
            }
            Attach(k, t) => {
                let tab = table(*t);
                let c = c_table(&tab)?;
                if *k == 0 {
                    must(&what, fst_set_input_symbols(h.m(), c.0))?;
                    f.set_input_symbols(Arc::new(tab));
                } else {
                    must(&what, fst_set_output_symbols(h.m(), c.0))?;
                    f.set_output_symbols(Arc::new(tab));
                }
            }
            Detach(k) => {
                if *k == 0 {
                    must(&what, fst_unset_input_symbols(h.m()))?;
                    f.take_input_symbols();
                } else {
                    must(&what, fst_unset_output_symbols(h.m()))?;
                    f.take_output_symbols();
                }
            }
            Sort(i) => {
                must(&what, fa::tr_sort::fst_tr_sort(h.m(), *i))?;
                if *i {
                    tr_sort(f, ILabelCompare {})
                } else {
                    tr_sort(f, OLabelCompare {})
                }
            }
            UnionSelf | ConcatSelf => {
                if f.num_states() > 8 {
                    return Ok(h);
                }
                let g = f.clone();
                let mut p: *const CFst = null();
                must("vec_fst_copy", fv::vec_fst_copy(h.m(), &mut p))?;
                let c = out(p)?;
                if matches!(op, UnionSelf) {
                    let b = union(f, &g).is_ok();
                    same_status(&what, fa::union::fst_union(h.m(), c.m()), b)?;
                } else {
                    let b = concat(f, &g).is_ok();
                    same_status(&what, fa::concat::fst_concat(h.m(), c.m()), b)?;
                }
            }
            Relabel => {
                let (a, b) = (table(0), table(1));
                let (ca, cb) = (c_table(&a)?, c_table(&b)?);
                let r = fv::vec_fst_relabel_tables(h.m(), ca.0, cb.0, 1, null(), cb.0, 0);
                let (aa, bb) = (Arc::new(a), Arc::new(b));
                let lr = f.relabel_tables(Some(&aa), &bb, true, None::<&Arc<SymbolTable>>, &bb, false);
                same_status(&what, r, lr.is_ok())?;
            }
        }
    }
    Ok(h)
}
fn histories(item: &(Aut, Vec<usize>)) -> Res<()> {
    let all = ops();
    let (a, seq) = item;
    let mut h = build(a)?;
    let mut f = lib(a);
    for k in seq {
        h = step(h, &mut f, &all[*k])?;
        same(&format!("{:?}", all[*k]), &h, &f, &never)?;
    }
    // printing and equality at the end
    unsafe {
        let mut s: *const libc::c_char = null();
        must("vec_fst_display", fv::vec_fst_display(h.m(), &mut s))?;
        let s = take_str(s)?;
        if s != format!("{f}") {
            return Err(format!("vec_fst_display gives {s:?}, library {:?}", format!("{f}")));
        }
        // every reader refuses a state that does not exist, and the machine survives
        let n = f.num_states() as StateId;
        let (mut x, mut y) = (0usize, 0.0f32);
        let mut it: *const fi::CTrsIterator = null();
        let mut ts: *const fts::CTrs = null();
        for s in [n, n + 1, StateId::MAX] {
            refuse! {
                "fst_final_weight", fst_final_weight(h.m(), s, &mut y);
                "fst_is_final", fst_is_final(h.m(), s, &mut x);
                "fst_num_trs", fst_num_trs(h.m(), s, &mut x);
                "fst_get_trs", fst_get_trs(h.m(), s, &mut ts);
                "trs_iterator_new", fi::trs_iterator_new(h.m(), s, &mut it);
            }
            must("fst_is_start", fst_is_start(h.m(), s, &mut x))?;
            if x != 0 {
                return Err(format!("state {s} of {n} is the start state"));
            }
        }
    }
    same("refused calls", &h, &f, &never)?;
    trace();
    if !seq.is_empty() {
        nontrivial();
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Un {
    Sort(bool),
    RmEps,
    Connect,
    ProjIn,
    ProjOut,
    ProjBad,
    TopSort,
    Reverse,
    Det,
    DetCfg(usize),
    Short,
    ShortCfg(usize, bool),
    Uniq,
    Opt,
    OptLog,
    Min,
    MinCfg(bool),
    Rand(usize, usize, bool, bool),
    Strings,
}
fn unaries() -> Vec<Un> {
    use Un::*;
    let mut v = vec![
        Sort(true), Sort(false), RmEps, Connect, ProjIn, ProjOut, ProjBad, TopSort, Reverse, Det, DetCfg(0), DetCfg(1), DetCfg(2), DetCfg(3), Short, ShortCfg(1, false),
        ShortCfg(2, false), ShortCfg(2, true), ShortCfg(0, false), Uniq, Opt, OptLog, Min, MinCfg(true), MinCfg(false), Strings,
    ];
    for seed in 0..2 {
        for npath in [1, 3] {
            v.push(Rand(seed, npath, false, false));
            v.push(Rand(seed, npath, true, false));
            v.push(Rand(seed, npath, true, true));
        }
    }
    v
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// The library operation: `None` when the library itself panics (judged by other properties).
fn lib_un(f: &V, u: Un) -> Option<anyhow::Result<V>> {
    use Un::*;
    quiet(|| {
        let mut g = f.clone();
        Ok(match u {
            Sort(true) => {
                tr_sort(&mut g, ILabelCompare {});
                g
            }
            Sort(false) => {
                tr_sort(&mut g, OLabelCompare {});
                g
            }
            RmEps => {
                rm_epsilon(&mut g)?;
                g
            }
            Connect => {
                connect(&mut g)?;
                g
            }
            ProjIn => {
                project(&mut g, ProjectType::ProjectInput);
                g
            }
            ProjOut => {
                project(&mut g, ProjectType::ProjectOutput);
                g
            }
            ProjBad | DetCfg(3) => anyhow::bail!("no such value"),
            TopSort => {
                top_sort(&mut g)?;
                g
            }
            Reverse => reverse(&g)?,
            Det => determinize(&g)?,
            DetCfg(k) => determinize_with_config(
                &g,
                DeterminizeConfig::new(
                    KDELTA,
                    [DeterminizeType::DeterminizeFunctional, DeterminizeType::DeterminizeNonFunctional, DeterminizeType::DeterminizeDisambiguate][k],
                ),
            )?,
            Short => shortest_path(&g)?,
            ShortCfg(n, u) => shortest_path_with_config(&g, ShortestPathConfig::new(KDELTA, n, u))?,
            Uniq => {
                tr_unique(&mut g);
                g
            }
            Opt => {
                optimize(&mut g)?;
                g
            }
            OptLog => {
                let mut c = SimpleWeightConverter {};
                let mut l: VectorFst<LogWeight> = weight_convert(&g, &mut c)?;
                optimize(&mut l)?;
                weight_convert(&l, &mut c)?
            }
            Min => {
                minimize(&mut g)?;
                g
            }
            MinCfg(b) => {
                minimize_with_config(&mut g, MinimizeConfig::new(KDELTA, b))?;
                g
            }
            Rand(seed, n, wt, rm) => randgen_with_config(
                &g,
                RandGenConfig::new(UniformTrSelector::from_seed(seed as u64)).with_npath(n).with_weighted(wt).with_max_length(3).with_remove_total_weight(rm),
            )?,
            Strings => unreachable!(),
        })
    })
}
fn strings(h: &H, f: &V) -> Res<()> {
    unsafe {
        let mut it: *const fsi::CStringPathsIterator = null();
        let r = fsi::string_paths_iterator_new(h.m(), &mut it);
        let l = f.string_paths_iter();
        if !same_status("string_paths_iterator_new", r, l.is_ok())? {
            return Ok(());
        }
        let it = it as *mut fsi::CStringPathsIterator;
        for p in l.unwrap().map(Some).take(6).chain([None, None]) {
            let mut d = 9usize;
            if let Some(p) = p {
                must("string_paths_iterator_done", fsi::string_paths_iterator_done(it, &mut d))?;
                if d != 0 {
                    return Err("string paths end too early".into());
                }
                let mut c: *const fsp::CStringPath = null();
                must("string_paths_iterator_next", fsi::string_paths_iterator_next(it, &mut c))?;
                if c.is_null() {
                    return Err("null string path before the end".into());
                }
                let mut fw = -7.0f32;
                let (mut i, mut o): (*const libc::c_char, *const libc::c_char) = (null(), null());
                must("string_path_weight", fsp::string_path_weight(c, &mut fw))?;
                must("string_path_istring", fsp::string_path_istring(c, &mut i))?;
                must("string_path_ostring", fsp::string_path_ostring(c, &mut o))?;
                let got = (take_str(i)?, take_str(o)?, fw);
                let want = (ok("istring", p.istring())?, ok("ostring", p.ostring())?, *p.weight().value());
                must("string_path_destroy", fsp::string_path_destroy(c as *mut _))?;
                if got != want {
                    return Err(format!("string path {got:?}, library {want:?}"));
                }
                nontrivial();
            } else if f.is_cyclic_or_long() {
                break;
            } else {
                must("string_paths_iterator_done", fsi::string_paths_iterator_done(it, &mut d))?;
                let mut c: *const fsp::CStringPath = 8 as *const _;
                must("string_paths_iterator_next", fsi::string_paths_iterator_next(it, &mut c))?;
                if d == 0 || !c.is_null() {
                    return Err(format!("string paths do not end: done {d}"));
                }
            }
        }
        must("string_paths_iterator_destroy", fsi::string_paths_iterator_destroy(it))?;
    }
    Ok(())
}
trait More {
    fn is_cyclic_or_long(&self) -> bool;
}
impl More for V {
    fn is_cyclic_or_long(&self) -> bool {
        self.paths_iter().take(7).count() > 6
    }
}
fn unary(item: &(Aut, usize, u64)) -> Res<()> {
    let (a, tabs, k) = item;
    let u = unaries()[*k as usize];
    let acyclic = a.is_acyclic();
    // outside the domain: these need not terminate (C11), whatever the interface
    if !acyclic && matches!(u, Un::Det | Un::DetCfg(_) | Un::ShortCfg(_, true) | Un::Opt | Un::OptLog | Un::Min | Un::MinCfg(_)) {
        skip();
        return Ok(());
    }
    let h = build(a)?;
    let mut f = lib(a);
    if *tabs == 1 {
        for k in 0..2 {
            let t = table(k);
            let c = c_table(&t)?;
            unsafe {
                if k == 0 {
                    must("fst_set_input_symbols", fst_set_input_symbols(h.m(), c.0))?;
                    f.set_input_symbols(Arc::new(t));
                } else {
                    must("fst_set_output_symbols", fst_set_output_symbols(h.m(), c.0))?;
                    f.set_output_symbols(Arc::new(t));
                }
            }
        }
    }
    if u == Un::Strings {
        if !acyclic && !a.is_trim() {
            skip();
            return Ok(());
        }
        strings(&h, &f)?;
        trace();
        return same("string paths", &h, &f, &never);
    }
    let before = f.clone();
    let Some(lr) = lib_un(&f, u) else {
        skip();
        return Ok(());
    };
    let what = format!("{u:?}");
    let mut p: *const CFst = null();
    let mut in_place = true;
    let r = unsafe {
        use Un::*;
        match u {
            Sort(b) => fa::tr_sort::fst_tr_sort(h.m(), b),
            RmEps => fa::rm_epsilon::fst_rm_epsilon(h.m()),
            Connect => fa::connect::fst_connect(h.m()),
            ProjIn | ProjOut | ProjBad => {
                let mut c: *const fa::project::CProjectType = null();
                must("fst_project_type_new", fa::project::fst_project_type_new([0, 1, 2][if u == ProjIn { 0 } else if u == ProjOut { 1 } else { 2 }], &mut c))?;
                fa::project::fst_project(h.m(), c)
            }
            TopSort => fa::top_sort::fst_top_sort(h.m()),
            Uniq => fa::tr_unique::fst_tr_unique(h.m()),
            Opt => fa::optimize::fst_optimize(h.m()),
            Min => fst_minimize(h.m()),
            MinCfg(b) => {
                let mut c: *const libc::c_void = null();
                must("fst_minimize_config_new", fst_minimize_config_new(KDELTA, b, &mut c))?;
                fst_minimize_with_config(h.m(), c)
            }
            OptLog => {
                in_place = false;
                p = h.0;
                let r = fa::optimize::fst_optimize_in_log(&mut p);
                if p == h.0 {
                    p = null();
                }
                r
            }
            Reverse => {
                in_place = false;
                fa::reverse::fst_reverse(h.m(), &mut p)
            }
            Det => {
                in_place = false;
                fa::determinize::fst_determinize(h.m(), &mut p)
            }
            DetCfg(k) => {
                in_place = false;
                let mut c: *const fa::determinize::CDeterminizeConfig = null();
                must("fst_determinize_config_new", fa::determinize::fst_determinize_config_new(KDELTA, k, &mut c))?;
                fa::determinize::fst_determinize_with_config(h.m(), c, &mut p)
            }
            Short => {
                in_place = false;
                fa::shortest_path::fst_shortest_path(h.m(), &mut p)
            }
            ShortCfg(n, q) => {
                in_place = false;
                let mut c: *const fa::shortest_path::CShortestPathConfig = null();
                must("fst_shortest_path_config_new", fa::shortest_path::fst_shortest_path_config_new(KDELTA, n, q, &mut c))?;
                fa::shortest_path::fst_shortest_path_with_config(h.m(), c, &mut p)
            }
            Rand(seed, n, wt, rm) => {
                in_place = false;
                fa::randgen::fst_randgen(h.m(), n, seed, 3, wt, rm, &mut p)
            }
            Strings => unreachable!(),
        }
    };
    let good = same_status(&what, r, lr.is_ok())?;
    trace();
    let rerun = || lib_un(&before, u).and_then(|r| r.ok());
    if in_place {
        if good {
            same(&what, &h, &lr.unwrap(), &rerun)?;
            nontrivial();
        } else {
            // still readable
            rd(&h).map_err(|e| format!("after a refused {what}: {e}"))?;
        }
    } else {
        same(&format!("operand of {what}"), &h, &before, &never)?;
        if good {
            let g = out(p)?;
            same(&what, &g, &lr.unwrap(), &rerun)?;
            nontrivial();
        }
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bi {
    Compose,
    ComposeCfg(usize, bool),
    Sigma(usize, usize, bool),
    Union,
    Concat,
    ConcatLazy,
    Iso,
    Equals,
    Replace(bool, bool),
}
fn binaries() -> Vec<Bi> {
    use Bi::*;
    let mut v = vec![Compose, Union, Concat, ConcatLazy, Iso, Equals];
    for k in 0..8 {
        v.push(ComposeCfg(k, true));
        v.push(ComposeCfg(k, false));
    }
    for side in 0..2 {
        for mode in 0..4 {
            v.push(Sigma(side, mode, false));
            v.push(Sigma(side, mode, true));
        }
    }
    for b in [false, true] {
        v.push(Replace(b, false));
        v.push(Replace(b, true));
    }
    v
}
fn filter(k: usize) -> Option<ComposeFilterEnum> {
    use ComposeFilterEnum::*;
    [AutoFilter, NullFilter, TrivialFilter, SequenceFilter, AltSequenceFilter, MatchFilter, NoMatchFilter].get(k).cloned()
}
fn lib_bi(f: &V, g: &V, b: Bi) -> Option<anyhow::Result<V>> {
    use Bi::*;
    quiet(|| {
        Ok(match b {
            Compose => compose::<TropicalWeight, V, V, V, _, _>(f.clone(), g.clone())?,
            ComposeCfg(k, c) => {
                let cfg = ComposeConfig { compose_filter: filter(k).ok_or_else(|| anyhow::anyhow!("no such filter"))?, connect: c, ..Default::default() };
                compose_with_config::<TropicalWeight, V, V, V, _, _>(f.clone(), g.clone(), cfg)?
            }
            Sigma(side, mode, allowed) => {
                use MatcherRewriteMode::*;
                let m = [MatcherRewriteAuto, MatcherRewriteAlways, MatcherRewriteNever].get(mode).cloned().ok_or_else(|| anyhow::anyhow!("no such mode"))?;
                let mc = MatcherConfig {
                    sigma_matcher_config: Some(SigmaMatcherConfig { sigma_label: 2, rewrite_mode: m, sigma_allowed_matches: if allowed { Some(vec![1]) } else { None } }),
                };
                let mut cfg = ComposeConfig::default();
                if side == 0 {
                    cfg.matcher1_config = mc
                } else {
                    cfg.matcher2_config = mc
                }
                compose_with_config::<TropicalWeight, V, V, V, _, _>(f.clone(), g.clone(), cfg)?
            }
            Union => {
                let mut x = f.clone();
                union(&mut x, g)?;
                x
            }
            Concat => {
                let mut x = f.clone();
                concat(&mut x, g)?;
                x
            }
            ConcatLazy => {
                let c: ConcatFst<TropicalWeight, V> = ConcatFst::new(f.clone(), g.clone())?;
                c.compute()?
            }
            Replace(e, both) => {
                let mut l = vec![(1, f)];
                if both {
                    l.push((2, g));
                }
                replace::<TropicalWeight, V, V, _>(l, 1, e)?
            }
            Iso | Equals => unreachable!(),
        })
    })
}
fn binary(item: &((Aut, Aut), u64)) -> Res<()> {
    let ((a, b), k) = item;
    let op = binaries()[*k as usize];
    let (h1, h2) = (build(a)?, build(b)?);
    let (f1, f2) = (lib(a), lib(b));
    let what = format!("{op:?}");
    unsafe {
        if op == Bi::Iso || op == Bi::Equals {
            let mut e = 9usize;
            if op == Bi::Equals {
                must("vec_fst_equals", fv::vec_fst_equals(h1.m(), h2.m(), &mut e))?;
                if (e != 0) != (f1 == f2) {
                    return Err(format!("vec_fst_equals {e}, library {}", f1 == f2));
                }
            } else {
                let Some(l) = quiet(|| isomorphic(&f1, &f2)) else {
                    skip();
                    return Ok(());
                };
                let r = fa::isomorphic::fst_isomorphic(h1.m(), h2.m(), &mut e);
                if same_status(&what, r, l.is_ok())? && (e != 0) != l.unwrap() {
                    return Err(format!("fst_isomorphic {e}, library {}", e == 0));
                }
            }
            trace();
            nontrivial();
            return Ok(());
        }
        if let Bi::Replace(_, both) = op {
            // rules 1 (the root) and 2 must not be recursive: C08
            let uses = |m: &Aut, l: Label| m.arcs.iter().any(|t| t.o == l);
            let rec = uses(a, 1) || (both && (uses(b, 2) || (uses(a, 2) && uses(b, 1))));
            if rec {
                skip();
                return Ok(());
            }
        }
        let Some(lr) = lib_bi(&f1, &f2, op) else {
            skip();
            return Ok(());
        };
        let mut p: *const CFst = null();
        let mut in_place = false;
        let mut delayed = false;
        use Bi::*;
        let r = match op {
            Compose => fa::compose::fst_compose(h1.m(), h2.m(), &mut p),
            ComposeCfg(k, c) => {
                let mut cfg: *const fa::compose::CComposeConfig = null();
                must("fst_compose_config_new", fa::compose::fst_compose_config_new(k, c, null(), null(), &mut cfg))?;
                let r = fa::compose::fst_compose_with_config(h1.m(), h2.m(), cfg, &mut p);
                must("fst_compose_config_destroy", fa::compose::fst_compose_config_destroy(cfg as *mut _))?;
                r
            }
            Sigma(side, mode, allowed) => {
                let v: Vec<u32> = if allowed { vec![1] } else { vec![] };
                let mut mcf: *const fa::compose::CMatcherConfig = null();
                must("fst_matcher_config_new", fa::compose::fst_matcher_config_new(2, mode, fa::compose::CIntArray::from(&v[..]), &mut mcf))?;
                let mut cfg: *const fa::compose::CComposeConfig = null();
                let (c1, c2) = if side == 0 { (mcf, null()) } else { (null(), mcf) };
                must("fst_compose_config_new", fa::compose::fst_compose_config_new(0, true, c1, c2, &mut cfg))?;
                must("fst_matcher_config_destroy", fa::compose::fst_matcher_config_destroy(mcf as *mut _))?;
                let r = fa::compose::fst_compose_with_config(h1.m(), h2.m(), cfg, &mut p);
                must("fst_compose_config_destroy", fa::compose::fst_compose_config_destroy(cfg as *mut _))?;
                r
            }
            Union => {
                in_place = true;
                fa::union::fst_union(h1.m(), h2.m())
            }
            Concat => {
                in_place = true;
                fa::concat::fst_concat(h1.m(), h2.m())
            }
            ConcatLazy => {
                delayed = true;
                fcc::concat_fst_new(&mut p, h1.m(), h2.m())
            }
            Replace(e, both) => {
                let mut l = vec![fa::replace::CLabelFstPair { label: 1, fst: h1.0 }];
                if both {
                    l.push(fa::replace::CLabelFstPair { label: 2, fst: h2.0 });
                }
                fa::replace::fst_replace(1, l.as_mut_ptr(), l.len(), e, &mut p)
            }
            Iso | Equals => unreachable!(),
        };
        let good = same_status(&what, r, lr.is_ok())?;
        trace();
        same(&format!("second operand of {what}"), &h2, &f2, &never)?;
        let rerun = || lib_bi(&f1, &f2, op).and_then(|r| r.ok());
        if in_place {
            if good {
                same(&what, &h1, &lr.unwrap(), &rerun)?;
            } else {
                rd(&h1).map_err(|e| format!("after a refused {what}: {e}"))?;
            }
        } else {
            same(&format!("first operand of {what}"), &h1, &f1, &never)?;
            if good {
                let want = lr.unwrap();
                let g = out(p)?;
                if delayed {
                    // a delayed machine is readable state by state, then computed
                    let mut s0: StateId = 4_000_000_000;
                    must("fst_start", fst_start(g.m(), &mut s0))?;
                    if (s0 != 4_000_000_000) != want.start().is_some() {
                        return Err(format!("start of the delayed concatenation: {s0}, library {:?}", want.start()));
                    }
                    // wrong type for the readers of plain machines
                    let mut n = 0usize;
                    if st("vec_fst_num_states", fv::vec_fst_num_states(g.m(), &mut n))? {
                        return Err("vec_fst_num_states accepts a delayed machine".into());
                    }
                    let mut q = g.0;
                    must("concat_fst_compute", fcc::concat_fst_compute(&mut q))?;
                    if q == g.0 {
                        return Err("concat_fst_compute gave no new machine".into());
                    }
                    let c = out(q)?;
                    same(&what, &c, &want, &rerun)?;
                    if want.num_states() > 0 {
                        let x = rd_n(g.m(), want.num_states())?;
                        let y = M::of(&want)?;
                        if sorted(&x) != sorted(&y) {
                            return Err(format!("delayed concatenation read through the interface: {x:?}\ncomputed: {y:?}"));
                        }
                    }
                } else {
                    same(&what, &g, &want, &rerun)?;
                }
            }
        }
        if good {
            nontrivial();
        }
    }
    Ok(())
}

/// Symbol tables: operations on a table handle, with sharing through a machine and through handles.
const SYMS: [&str; 4] = ["a", "b", "<eps>", "é x"];
fn symt_hist(seq: &Vec<usize>) -> Res<()> {
    let c = c_table(&table(2))?;
    let mut m = table(2);
    let holder = H::new()?;
    let mut holders = 0usize; // other owners: 1 = input side, 2 = output side, 4 = extra handle
    let mut extra: Option<S> = None;
    unsafe {
        for k in seq {
            let shared = holders != 0;
            match k {
                0..=3 => {
                    let s = CString::new(SYMS[*k]).unwrap();
                    let mut key = 999usize;
                    let r = fs::symt_add_symbol(c.m(), s.as_ptr(), &mut key);
                    if same_status("symt_add_symbol", r, !shared)? {
                        let l = m.add_symbol(SYMS[*k]);
                        if key as Label != l {
                            return Err(format!("symt_add_symbol gave {key}, library {l}"));
                        }
                    }
                }
                4 => {
                    let o = table(1);
                    let co = c_table(&o)?;
                    let r = fs::symt_add_table(c.m(), co.0);
                    if same_status("symt_add_table", r, !shared)? {
                        m.add_table(&o);
                    }
                }
                5 => {
                    must("attach", fst_set_input_symbols(holder.m(), c.0))?;
                    holders |= 1;
                }
                6 => {
                    must("attach", fst_set_output_symbols(holder.m(), c.0))?;
                    holders |= 2;
                }
                7 => {
                    must("detach", fst_unset_input_symbols(holder.m()))?;
                    holders &= !1;
                }
                8 => {
                    must("detach", fst_unset_output_symbols(holder.m()))?;
                    holders &= !2;
                }
                9 => {
                    if holders & 1 != 0 {
                        let mut p: *const fs::CSymbolTable = null();
                        must("fst_input_symbols", fst_input_symbols(holder.m(), &mut p))?;
                        if p.is_null() {
                            return Err("attached table not given back".into());
                        }
                        extra = Some(S(p));
                        holders |= 4;
                    }
                }
                _ => {
                    extra = None;
                    holders &= !4;
                }
            }
            let got = rd_symt(c.0)?;
            let want: Vec<_> = m.iter().map(|(l, s)| (l, s.to_string())).collect();
            if got != want {
                return Err(format!("table {got:?}, library {want:?}"));
            }
            let t = rd_tabs(holder.m())?;
            for side in 0..2 {
                if t[side] != if holders & (1 << side) != 0 { Some(want.clone()) } else { None } {
                    return Err(format!("attached table (side {side}): {:?}, expected {want:?} / {holders}", t[side]));
                }
            }
            states(1);
        }
        for s in SYMS.iter().chain(["c", "", "zz"].iter()) {
            let cs = CString::new(*s).unwrap();
            let (mut k, mut p) = (999usize, 9usize);
            let r = fs::symt_find_symbol(c.0, cs.as_ptr(), &mut k);
            if same_status("symt_find_symbol", r, m.get_label(s).is_some())? && Some(k as Label) != m.get_label(s) {
                return Err(format!("symt_find_symbol({s}) = {k}, library {:?}", m.get_label(s)));
            }
            must("symt_member_symbol", fs::symt_member_symbol(c.0, cs.as_ptr(), &mut p))?;
            if (p != 0) != m.contains_symbol(s) {
                return Err(format!("symt_member_symbol({s}) = {p}"));
            }
        }
        for l in 0..8 as Label {
            let mut p = 9usize;
            must("symt_member_index", fs::symt_member_index(c.0, l, &mut p))?;
            let mut s: *const libc::c_char = null();
            let r = fs::symt_find_index(c.0, l, &mut s);
            if (p != 0) != m.contains_label(l) {
                return Err(format!("symt_member_index({l}) = {p}"));
            }
            if same_status("symt_find_index", r, m.get_symbol(l).is_some())? && Some(take_str(s)?.as_str()) != m.get_symbol(l) {
                return Err(format!("symt_find_index({l}) differs"));
            }
        }
        let mut q: *const fs::CSymbolTable = null();
        must("symt_copy", fs::symt_copy(c.0, &mut q))?;
        let q = S(q);
        let mut e = 9usize;
        must("symt_equals", fs::symt_equals(c.0, q.0, &mut e))?;
        if e != 1 {
            return Err("copied table differs".into());
        }
        // a copy is never shared
        let z = CString::new("fresh").unwrap();
        let mut key = 0usize;
        must("symt_add_symbol on a copy", fs::symt_add_symbol(q.m(), z.as_ptr(), &mut key))?;
        must("symt_equals", fs::symt_equals(c.0, q.0, &mut e))?;
        if e != 0 {
            return Err("changed copy equals the original".into());
        }
    }
    drop(extra);
    trace();
    nontrivial();
    Ok(())
}

/// Iterators: operations on the three iterator kinds of one state against a plain index.
fn iter_hist(item: &(usize, Vec<usize>)) -> Res<()> {
    let (n, seq) = item;
    let mut a = Aut { n: 2, start: Some(0), fin: vec![None, Some(0)], arcs: vec![] };
    for k in 0..*n {
        a.arcs.push(Arc5 { s: 0, i: k as Label + 1, o: 1, w: k as i32, d: k % 2 });
    }
    let h = build(&a)?;
    let mut f = lib(&a);
    let mut model: Vec<_> = M::of(&f)?.arcs[0].clone();
    unsafe {
        let mut it: *const fi::CTrsIterator = null();
        must("trs_iterator_new", fi::trs_iterator_new(h.m(), 0, &mut it))?;
        let it = it as *mut fi::CTrsIterator;
        // read-only iteration sees the machine as it was
        let mut pos = 0usize;
        for k in seq {
            match k {
                0 => {
                    let mut p: *const ft::CTr = null();
                    must("trs_iterator_next", fi::trs_iterator_next(it, &mut p))?;
                    let got = if p.is_null() { None } else { Some(rd_tr(p)?) };
                    ft::tr_delete(p as *mut _);
                    if got.as_ref() != model.as_slice().get(pos) {
                        return Err(format!("trs_iterator_next at {pos} of {n} gave {got:?}"));
                    }
                    pos += 1;
                }
                1 => {
                    must("trs_iterator_reset", fi::trs_iterator_reset(it))?;
                    pos = 0;
                }
                _ => {}
            }
            let mut d = 9usize;
            must("trs_iterator_done", fi::trs_iterator_done(it, &mut d))?;
            if (d != 0) != (pos >= *n) {
                return Err(format!("trs_iterator_done = {d} after {pos} of {n} transitions"));
            }
            states(1);
        }
        must("trs_iterator_destroy", fi::trs_iterator_destroy(it))?;
        let mut it: *const fi::CMutTrsIterator = null();
        must("mut_trs_iterator_new", fi::mut_trs_iterator_new(h.m() as *mut _, 0, &mut it))?;
        let it = it as *mut fi::CMutTrsIterator;
        pos = 0;
        for k in seq {
            match k {
                0 => {
                    must("mut_trs_iterator_next", fi::mut_trs_iterator_next(it))?;
                    pos += 1;
                }
                1 => {
                    must("mut_trs_iterator_reset", fi::mut_trs_iterator_reset(it))?;
                    pos = 0;
                }
                _ => {
                    let l = *k as Label - 2;
                    let tr = c_tr(l, 3, 2.5, 1)?;
                    let r = fi::mut_trs_iterator_set_value(it, tr);
                    ft::tr_delete(tr);
                    if same_status("mut_trs_iterator_set_value", r, pos < *n)? {
                        model[pos] = (l, 3, TropicalWeight::new(2.5), 1);
                        f.tr_iter_mut(0).unwrap().set_tr(pos, Tr::new(l, 3, 2.5, 1)).unwrap();
                    }
                }
            }
            let mut d = 9usize;
            must("mut_trs_iterator_done", fi::mut_trs_iterator_done(it, &mut d))?;
            if (d != 0) != (pos >= *n) {
                return Err(format!("mut_trs_iterator_done = {d} at {pos} of {n} transitions"));
            }
            let mut p: *const ft::CTr = null();
            must("mut_trs_iterator_value", fi::mut_trs_iterator_value(it, &mut p))?;
            let got = if p.is_null() { None } else { Some(rd_tr(p)?) };
            ft::tr_delete(p as *mut _);
            if got.as_ref() != model.as_slice().get(pos) {
                return Err(format!("mut_trs_iterator_value at {pos} gave {got:?}"));
            }
            states(1);
        }
        must("mut_trs_iterator_destroy", fi::mut_trs_iterator_destroy(it))?;
        same("mutable iteration", &h, &f, &never)?;
        // transition lists: push, remove at every position including past the end
        let mut ts: *const fts::CTrs = null();
        must("trs_vec_new", fts::trs_vec_new(&mut ts))?;
        let ts = ts as *mut fts::CTrs;
        let mut v: Vec<(Label, Label, TropicalWeight, usize)> = vec![];
        for k in seq {
            if *k < 3 {
                let tr = c_tr(*k as Label, 1, 0.5, 0)?;
                must("trs_vec_push", fts::trs_vec_push(ts, tr))?;
                ft::tr_delete(tr);
                v.push((*k as Label, 1, TropicalWeight::new(0.5), 0));
            } else {
                let i = *k as usize - 3;
                let mut p: *const ft::CTr = null();
                let r = fts::trs_vec_remove(ts, i, &mut p);
                if same_status("trs_vec_remove", r, i < v.len())? {
                    let want = v.remove(i);
                    if rd_tr(p)? != want {
                        return Err(format!("trs_vec_remove({i}) gave another transition"));
                    }
                    ft::tr_delete(p as *mut _);
                }
            }
            let mut l = 99usize;
            must("trs_vec_len", fts::trs_vec_len(ts, &mut l))?;
            if l != v.len() {
                return Err(format!("trs_vec_len {l}, expected {}", v.len()));
            }
        }
        let mut s: *const libc::c_char = null();
        must("trs_vec_display", fts::trs_vec_display(ts, &mut s))?;
        let s = take_str(s)?;
        let lt = TrsVec(Arc::new(v.iter().map(|t| Tr::<TropicalWeight>::new(t.0, t.1, t.2.clone(), t.3 as StateId)).collect::<Vec<_>>()));
        if s != format!("{lt:?}") {
            return Err(format!("trs_vec_display {s}"));
        }
        must("trs_vec_delete", fts::trs_vec_delete(ts))?;
        // transition setters
        let tr = c_tr(1, 2, 3.0, 4)?;
        let mut want = (1 as Label, 2 as Label, TropicalWeight::new(3.0), 4usize);
        for k in seq {
            match k % 4 {
                0 => {
                    must("tr_set_ilabel", ft::tr_set_ilabel(tr, (k + 5) as usize as *const _))?;
                    want.0 = *k as Label + 5;
                }
                1 => {
                    must("tr_set_olabel", ft::tr_set_olabel(tr, (k + 6) as usize as *const _))?;
                    want.1 = *k as Label + 6;
                }
                2 => {
                    must("tr_set_weight", ft::tr_set_weight(tr, *k as f32))?;
                    want.2 = TropicalWeight::new(*k as f32);
                }
                _ => {
                    must("tr_set_next_state", ft::tr_set_next_state(tr, (k + 8) as usize as *const _))?;
                    want.3 = *k as usize + 8;
                }
            }
            if rd_tr(tr)? != want {
                return Err(format!("transition {:?} after setters, expected {want:?}", rd_tr(tr)?));
            }
        }
        ft::tr_delete(tr);
    }
    trace();
    nontrivial();
    Ok(())
}

/// Linear machines from symbol strings.
fn from_strings(item: &(String, String)) -> Res<()> {
    let (i, o) = item;
    let (ti, to) = (table(0), table(1));
    let (ci, co) = (c_table(&ti)?, c_table(&to)?);
    let (si, so) = (CString::new(i.as_str()).unwrap(), CString::new(o.as_str()).unwrap());
    let lab = |t: &SymbolTable, s: &str| s.split(' ').map(|x| t.get_label(x)).collect::<Option<Vec<_>>>();
    let (li, lo) = (lab(&ti, i), lab(&to, o));
    unsafe {
        let mut p: *const CFst = null();
        let r = fu::utils_string_to_acceptor(si.as_ptr(), ci.m(), 1.5, &mut p);
        if same_status("utils_string_to_acceptor", r, li.is_some())? {
            let f: V = rustfst::utils::acceptor(li.as_ref().unwrap(), TropicalWeight::new(1.5));
            same("utils_string_to_acceptor", &out(p)?, &f, &never)?;
        }
        let mut p: *const CFst = null();
        let r = fu::utils_string_to_transducer(si.as_ptr(), so.as_ptr(), ci.m(), co.m(), 0.5, &mut p);
        if same_status("utils_string_to_transducer", r, li.is_some() && lo.is_some())? {
            let f: V = rustfst::utils::transducer(&li.unwrap(), &lo.unwrap(), TropicalWeight::new(0.5));
            same("utils_string_to_transducer", &out(p)?, &f, &never)?;
        }
    }
    trace();
    nontrivial();
    Ok(())
}

/// Files, constant machines, drawings.
fn files(item: &(Aut, usize)) -> Res<()> {
    let (a, tabs) = item;
    let h = build(a)?;
    let mut f = lib(a);
    if *tabs == 1 {
        let t = table(0);
        let c = c_table(&t)?;
        must("fst_set_input_symbols", unsafe { fst_set_input_symbols(h.m(), c.0) })?;
        f.set_input_symbols(Arc::new(t));
    }
    let dir = format!("{}/c31-{}-{:?}", std::env::temp_dir().display(), std::process::id(), std::thread::current().id());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = files_in(&dir, &h, &f);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn files_in(dir: &str, h: &H, f: &V) -> Res<()> {
    let path = |n: &str| CString::new(format!("{dir}/{n}")).unwrap();
    let rdf = |n: &str| std::fs::read(format!("{dir}/{n}")).map_err(|e| format!("{n}: {e}"));
    unsafe {
        must("vec_fst_write_file", fv::vec_fst_write_file(h.m(), path("v").as_ptr()))?;
        ok("write", f.write(format!("{dir}/lv")))?;
        if rdf("v")? != rdf("lv")? {
            return Err(format!("vec_fst_write_file and the library write different files"));
        }
        let mut p: *const CFst = null();
        must("vec_fst_from_path", fv::vec_fst_from_path(&mut p, path("v").as_ptr()))?;
        let g = out(p)?;
        same("vec_fst_from_path", &g, &ok("read", V::read(format!("{dir}/lv")))?, &never)?;
        // missing file, directory, wrong kind of machine
        let c: ConstFst<TropicalWeight> = f.clone().into();
        ok("write const", c.write(format!("{dir}/lc")))?;
        refuse! {
            "vec_fst_from_path of a missing file", fv::vec_fst_from_path(&mut p, path("nothing").as_ptr());
            "vec_fst_from_path of a directory", fv::vec_fst_from_path(&mut p, CString::new(dir).unwrap().as_ptr());
            "vec_fst_from_path of a constant machine", fv::vec_fst_from_path(&mut p, path("lc").as_ptr());
            "const_fst_from_path of a missing file", fc::const_fst_from_path(&mut p, path("nothing").as_ptr());
            "const_fst_from_path of a mutable machine", fc::const_fst_from_path(&mut p, path("v").as_ptr());
            "vec_fst_write_file into a missing directory", fv::vec_fst_write_file(h.m(), path("no/v").as_ptr());
        }
        let mut q: *const CFst = null();
        must("const_fst_from_path", fc::const_fst_from_path(&mut q, path("lc").as_ptr()))?;
        let k = out(q)?;
        let n = f.num_states();
        let want = M::of(f)?;
        let got = rd_n(k.m(), n)?;
        if got != want || rd_tabs(k.m())? != lib_tabs(f) {
            return Err(format!("constant machine read back as {got:?}, expected {want:?}"));
        }
        must("const_fst_write_file", fc::const_fst_write_file(k.m(), path("c").as_ptr()))?;
        if rdf("c")? != rdf("lc")? {
            return Err("const_fst_write_file and the library write different files".into());
        }
        let mut q: *const CFst = null();
        must("const_fst_copy", fc::const_fst_copy(k.m(), &mut q))?;
        let k2 = out(q)?;
        let mut e = 9usize;
        must("const_fst_equals", fc::const_fst_equals(k.m(), k2.m(), &mut e))?;
        if e != 1 {
            return Err("copy of a constant machine differs".into());
        }
        let mut s: *const libc::c_char = null();
        must("const_fst_display", fc::const_fst_display(k.m(), &mut s))?;
        if take_str(s)? != format!("{c}") {
            return Err("const_fst_display differs".into());
        }
        // wrong handle kinds
        let mut x = 0usize;
        let mut id = 0;
        let mut b: *const ffi_convert::CArray<u8> = null();
        let mut it: *const fi::CStateIterator = null();
        let mut mit: *const fi::CMutTrsIterator = null();
        refuse! {
            "vec_fst_add_state(const)", fv::vec_fst_add_state(k.m(), &mut id);
            "vec_fst_num_states(const)", fv::vec_fst_num_states(k.m(), &mut x);
            "vec_fst_set_start(const)", fv::vec_fst_set_start(k.m(), 0);
            "vec_fst_set_final(const)", fv::vec_fst_set_final(k.m(), 0, 0.0);
            "vec_fst_del_final_weight(const)", fv::vec_fst_del_final_weight(k.m(), 0);
            "vec_fst_delete_states(const)", fv::vec_fst_delete_states(k.m());
            "vec_fst_equals(const)", fv::vec_fst_equals(h.m(), k.m(), &mut x);
            "const_fst_equals(vec)", fc::const_fst_equals(h.m(), k.m(), &mut x);
            "vec_fst_copy(const)", fv::vec_fst_copy(k.m(), &mut q);
            "const_fst_copy(vec)", fc::const_fst_copy(h.m(), &mut q);
            "vec_fst_display(const)", fv::vec_fst_display(k.m(), &mut s);
            "const_fst_display(vec)", fc::const_fst_display(h.m(), &mut s);
            "vec_fst_to_bytes(const)", fv::vec_fst_to_bytes(k.m(), &mut b);
            "vec_fst_write_file(const)", fv::vec_fst_write_file(k.m(), path("y").as_ptr());
            "const_fst_write_file(vec)", fc::const_fst_write_file(h.m(), path("y").as_ptr());
            "fst_connect(const)", fa::connect::fst_connect(k.m());
            "fst_compose(const)", fa::compose::fst_compose(h.m(), k.m(), &mut q);
            "fst_compose(const)", fa::compose::fst_compose(k.m(), h.m(), &mut q);
            "fst_union(const)", fa::union::fst_union(h.m(), k.m());
            "fst_concat(const)", fa::concat::fst_concat(h.m(), k.m());
            "fst_isomorphic(const)", fa::isomorphic::fst_isomorphic(h.m(), k.m(), &mut x);
            "fst_reverse(const)", fa::reverse::fst_reverse(k.m(), &mut q);
            "fst_determinize(const)", fa::determinize::fst_determinize(k.m(), &mut q);
            "fst_shortest_path(const)", fa::shortest_path::fst_shortest_path(k.m(), &mut q);
            "concat_fst_new(const)", fcc::concat_fst_new(&mut q, h.m(), k.m());
            "state_iterator_new(const)", fi::state_iterator_new(k.m() as *mut _, &mut it);
            "mut_trs_iterator_new(const)", fi::mut_trs_iterator_new(k.m() as *mut _, 0, &mut mit);
        }
        let got = rd_n(k.m(), n)?;
        if got != want {
            return Err(format!("constant machine changed by refused calls: {got:?}"));
        }
        same("refused calls", h, f, &never)?;
        // drawings
        for mask in 0..8usize {
            let b = |i: usize| (mask >> i) & 1;
            let title = CString::new("t").unwrap();
            let neg = if b(2) == 1 { -1.0 } else { 2.0 };
            must(
                "vec_fst_draw",
                fv::vec_fst_draw(h.m(), null(), null(), path("d").as_ptr(), title.as_ptr(), b(0), neg, 11.0, b(1), b(2), neg, 0.25, 14, b(1), b(0)),
            )?;
            let cfg = DrawingConfig {
                vertical: b(2) > 0,
                size: if neg >= 0.0 { Some((neg, 11.0)) } else { None },
                title: "t".into(),
                portrait: b(1) > 0,
                ranksep: if neg >= 0.0 { Some(neg) } else { None },
                nodesep: Some(0.25),
                fontsize: 14,
                acceptor: b(0) > 0,
                show_weight_one: b(1) > 0,
                print_weight: b(0) > 0,
            };
            ok("draw", f.draw(format!("{dir}/ld"), &cfg))?;
            if rdf("d")? != rdf("ld")? {
                return Err(format!("vec_fst_draw (options {mask}) and the library draw differently"));
            }
            must(
                "const_fst_draw",
                fc::const_fst_draw(k.m(), null(), null(), path("e").as_ptr(), title.as_ptr(), b(0), neg, 11.0, b(1), b(2), neg, 0.25, 14, b(1), b(0)),
            )?;
            if rdf("e")? != rdf("ld")? {
                return Err(format!("const_fst_draw (options {mask}) and the library draw differently"));
            }
        }
        if st("vec_fst_draw", fv::vec_fst_draw(h.m(), null(), null(), path("no/d").as_ptr(), path("x").as_ptr(), 0, 1.0, 1.0, 0, 0, 1.0, 1.0, 1, 0, 0))? {
            return Err("vec_fst_draw into a missing directory reports success".into());
        }
        // symbol tables on disk
        let t = table(1);
        let c = c_table(&t)?;
        for bin in [0usize, 1] {
            must("symt_write_file", fs::symt_write_file(c.0, path("s").as_ptr(), bin as *const _))?;
            if bin == 1 {
                ok("write", t.write(format!("{dir}/ls")))?;
            } else {
                ok("write_text", t.write_text(format!("{dir}/ls")))?;
            }
            if rdf("s")? != rdf("ls")? {
                return Err(format!("symt_write_file (binary {bin}) and the library write different files"));
            }
            let mut p: *const fs::CSymbolTable = null();
            must("symt_from_path", fs::symt_from_path(&mut p, path("s").as_ptr(), bin as *const _))?;
            let p = S(p);
            if rd_symt(p.0)? != rd_symt(c.0)? {
                return Err("symbol table read back differently".into());
            }
            let mut p: *const fs::CSymbolTable = null();
            if st("symt_from_path", fs::symt_from_path(&mut p, path("none").as_ptr(), bin as *const _))? {
                return Err("symt_from_path of a missing file reports success".into());
            }
        }
    }
    trace();
    nontrivial();
    Ok(())
}

/// Every function that takes a handle refuses a null one.
fn nulls(k: &u64) -> Res<()> {
    let a = Aut { n: 1, start: Some(0), fin: vec![Some(0)], arcs: vec![] };
    let h = build(&a)?;
    let t = c_table(&table(0))?;
    let (z, hm) = (null_mut::<CFst>(), h.m());
    let (mut x, mut y, mut id) = (0usize, 0.0f32, 0);
    let mut p: *const CFst = null();
    let mut cs: *const libc::c_char = null();
    let mut ct: *const ft::CTr = null();
    let mut cts: *const fts::CTrs = null();
    let mut sy: *const fs::CSymbolTable = null();
    let mut by: *const ffi_convert::CArray<u8> = null();
    let mut i1: *const fi::CTrsIterator = null();
    let mut i2: *const fi::CMutTrsIterator = null();
    let mut i3: *const fi::CStateIterator = null();
    let mut i4: *const fsi::CStringPathsIterator = null();
    let mut i5: *const fsp::CStringPath = null();
    let name = CString::new("/nonexistent-dir/f").unwrap();
    unsafe {
        let tr = c_tr(1, 1, 0.0, 0)?;
        let r = match k {
            0 => ("fst_start", fst_start(z, &mut id)),
            1 => ("fst_final_weight", fst_final_weight(z, 0, &mut y)),
            2 => ("fst_num_trs", fst_num_trs(z, 0, &mut x)),
            3 => ("fst_get_trs", fst_get_trs(z, 0, &mut cts)),
            4 => ("fst_is_final", fst_is_final(z, 0, &mut x)),
            5 => ("fst_is_start", fst_is_start(z, 0, &mut x)),
            6 => ("fst_input_symbols", fst_input_symbols(z, &mut sy)),
            7 => ("fst_output_symbols", fst_output_symbols(z, &mut sy)),
            8 => ("fst_set_input_symbols", fst_set_input_symbols(z, t.0)),
            9 => ("fst_set_output_symbols", fst_set_output_symbols(hm, null())),
            10 => ("fst_unset_input_symbols", fst_unset_input_symbols(z)),
            11 => ("fst_unset_output_symbols", fst_unset_output_symbols(z)),
            12 => ("vec_fst_set_start", fv::vec_fst_set_start(z, 0)),
            13 => ("vec_fst_set_final", fv::vec_fst_set_final(z, 0, 0.0)),
            14 => ("vec_fst_add_state", fv::vec_fst_add_state(z, &mut id)),
            15 => ("vec_fst_delete_states", fv::vec_fst_delete_states(z)),
            16 => ("vec_fst_add_tr", fv::vec_fst_add_tr(z, 0, tr)),
            17 => ("vec_fst_add_tr", fv::vec_fst_add_tr(hm, 0, null())),
            18 => ("vec_fst_del_final_weight", fv::vec_fst_del_final_weight(z, 0)),
            19 => ("vec_fst_write_file", fv::vec_fst_write_file(z, name.as_ptr())),
            20 => ("vec_fst_relabel_tables", fv::vec_fst_relabel_tables(z, t.0, t.0, 0, t.0, t.0, 0)),
            21 => ("vec_fst_relabel_tables", fv::vec_fst_relabel_tables(hm, t.0, null(), 0, t.0, t.0, 0)),
            22 => ("vec_fst_relabel_tables", fv::vec_fst_relabel_tables(hm, t.0, t.0, 0, t.0, null(), 0)),
            23 => ("vec_fst_num_states", fv::vec_fst_num_states(z, &mut x)),
            24 => ("vec_fst_equals", fv::vec_fst_equals(z, hm, &mut x)),
            25 => ("vec_fst_equals", fv::vec_fst_equals(hm, z, &mut x)),
            26 => ("vec_fst_copy", fv::vec_fst_copy(z, &mut p)),
            27 => ("vec_fst_display", fv::vec_fst_display(z, &mut cs)),
            28 => ("vec_fst_to_bytes", fv::vec_fst_to_bytes(z, &mut by)),
            29 => ("vec_fst_from_bytes", fv::vec_fst_from_bytes(null(), &mut p)),
            30 => ("const_fst_write_file", fc::const_fst_write_file(z, name.as_ptr())),
            31 => ("const_fst_equals", fc::const_fst_equals(z, hm, &mut x)),
            32 => ("const_fst_copy", fc::const_fst_copy(z, &mut p)),
            33 => ("const_fst_display", fc::const_fst_display(z, &mut cs)),
            34 => ("concat_fst_new", fcc::concat_fst_new(&mut p, z, hm)),
            35 => ("concat_fst_new", fcc::concat_fst_new(&mut p, hm, z)),
            36 => ("concat_fst_compute", fcc::concat_fst_compute(&mut p)),
            37 => {
                let mut q = h.0;
                ("concat_fst_compute on a plain machine", fcc::concat_fst_compute(&mut q))
            }
            38 => ("utils_string_to_acceptor", fu::utils_string_to_acceptor(name.as_ptr(), null_mut(), 0.0, &mut p)),
            39 => ("utils_string_to_transducer", fu::utils_string_to_transducer(name.as_ptr(), name.as_ptr(), null_mut(), t.m(), 0.0, &mut p)),
            40 => ("utils_string_to_transducer", fu::utils_string_to_transducer(name.as_ptr(), name.as_ptr(), t.m(), null_mut(), 0.0, &mut p)),
            41 => ("trs_iterator_new", fi::trs_iterator_new(z, 0, &mut i1)),
            42 => ("trs_iterator_next", fi::trs_iterator_next(null_mut(), &mut ct)),
            43 => ("trs_iterator_done", fi::trs_iterator_done(null_mut(), &mut x)),
            44 => ("trs_iterator_reset", fi::trs_iterator_reset(null_mut())),
            45 => ("mut_trs_iterator_new", fi::mut_trs_iterator_new(null_mut(), 0, &mut i2)),
            46 => ("mut_trs_iterator_next", fi::mut_trs_iterator_next(null_mut())),
            47 => ("mut_trs_iterator_value", fi::mut_trs_iterator_value(null_mut(), &mut ct)),
            48 => ("mut_trs_iterator_set_value", fi::mut_trs_iterator_set_value(null_mut(), tr)),
            49 => ("mut_trs_iterator_done", fi::mut_trs_iterator_done(null_mut(), &mut x)),
            50 => ("mut_trs_iterator_reset", fi::mut_trs_iterator_reset(null_mut())),
            51 => ("state_iterator_new", fi::state_iterator_new(null_mut(), &mut i3)),
            52 => ("state_iterator_next", fi::state_iterator_next(null_mut(), &mut id)),
            53 => ("state_iterator_done", fi::state_iterator_done(null_mut(), &mut x)),
            54 => ("string_paths_iterator_new", fsi::string_paths_iterator_new(z, &mut i4)),
            55 => ("string_paths_iterator_next", fsi::string_paths_iterator_next(null_mut(), &mut i5)),
            56 => ("string_paths_iterator_done", fsi::string_paths_iterator_done(null_mut(), &mut x)),
            57 => ("string_path_weight", fsp::string_path_weight(null(), &mut y)),
            58 => ("string_path_istring", fsp::string_path_istring(null(), &mut cs)),
            59 => ("string_path_ostring", fsp::string_path_ostring(null(), &mut cs)),
            60 => ("symt_add_symbol", fs::symt_add_symbol(null_mut(), name.as_ptr(), &mut x)),
            61 => ("symt_add_table", fs::symt_add_table(null_mut(), t.0)),
            62 => ("symt_add_table", fs::symt_add_table(t.m(), null())),
            63 => ("symt_find_index", fs::symt_find_index(null(), 0, &mut cs)),
            64 => ("symt_find_symbol", fs::symt_find_symbol(null(), name.as_ptr(), &mut x)),
            65 => ("symt_write_file", fs::symt_write_file(null(), name.as_ptr(), null())),
            66 => ("symt_member_index", fs::symt_member_index(null(), 0, &mut x)),
            67 => ("symt_member_symbol", fs::symt_member_symbol(null(), name.as_ptr(), &mut x)),
            68 => ("symt_num_symbols", fs::symt_num_symbols(null(), &mut x)),
            69 => ("symt_copy", fs::symt_copy(null(), &mut sy)),
            70 => ("symt_equals", fs::symt_equals(null(), t.0, &mut x)),
            71 => ("symt_equals", fs::symt_equals(t.0, null(), &mut x)),
            72 => ("tr_ilabel", ft::tr_ilabel(null(), &mut id)),
            73 => ("tr_olabel", ft::tr_olabel(null(), &mut id)),
            74 => ("tr_weight", ft::tr_weight(null(), &mut y)),
            75 => ("tr_next_state", ft::tr_next_state(null(), &mut id)),
            76 => ("tr_set_weight", ft::tr_set_weight(null_mut(), 0.0)),
            77 => ("trs_vec_len", fts::trs_vec_len(null(), &mut x)),
            78 => ("trs_vec_push", fts::trs_vec_push(null_mut(), tr)),
            79 => ("trs_vec_remove", fts::trs_vec_remove(null_mut(), 0, &mut ct)),
            80 => ("trs_vec_shallow_clone", fts::trs_vec_shallow_clone(null(), &mut cts)),
            81 => ("trs_vec_display", fts::trs_vec_display(null(), &mut cs)),
            82 => ("fst_tr_sort", fa::tr_sort::fst_tr_sort(z, true)),
            83 => ("fst_rm_epsilon", fa::rm_epsilon::fst_rm_epsilon(z)),
            84 => ("fst_connect", fa::connect::fst_connect(z)),
            85 => ("fst_project", fa::project::fst_project(hm, null())),
            86 => ("fst_top_sort", fa::top_sort::fst_top_sort(z)),
            87 => ("fst_reverse", fa::reverse::fst_reverse(z, &mut p)),
            88 => ("fst_determinize", fa::determinize::fst_determinize(z, &mut p)),
            89 => ("fst_determinize_with_config", fa::determinize::fst_determinize_with_config(hm, null(), &mut p)),
            90 => ("fst_shortest_path", fa::shortest_path::fst_shortest_path(z, &mut p)),
            91 => ("fst_shortest_path_with_config", fa::shortest_path::fst_shortest_path_with_config(hm, null(), &mut p)),
            92 => ("fst_tr_unique", fa::tr_unique::fst_tr_unique(z)),
            93 => ("fst_optimize", fa::optimize::fst_optimize(z)),
            94 => ("fst_optimize_in_log", fa::optimize::fst_optimize_in_log(&mut p)),
            95 => ("fst_minimize", fst_minimize(z)),
            96 => ("fst_minimize_with_config", fst_minimize_with_config(hm, null())),
            97 => ("fst_randgen", fa::randgen::fst_randgen(z, 1, 1, 1, false, false, &mut p)),
            98 => ("fst_compose", fa::compose::fst_compose(z, hm, &mut p)),
            99 => ("fst_compose", fa::compose::fst_compose(hm, z, &mut p)),
            100 => ("fst_compose_with_config", fa::compose::fst_compose_with_config(hm, hm, null(), &mut p)),
            101 => ("fst_union", fa::union::fst_union(z, hm)),
            102 => ("fst_union", fa::union::fst_union(hm, z)),
            103 => ("fst_concat", fa::concat::fst_concat(z, hm)),
            104 => ("fst_concat", fa::concat::fst_concat(hm, z)),
            105 => ("fst_isomorphic", fa::isomorphic::fst_isomorphic(z, hm, &mut x)),
            106 => ("fst_isomorphic", fa::isomorphic::fst_isomorphic(hm, z, &mut x)),
            107 => {
                let mut l = [fa::replace::CLabelFstPair { label: 1, fst: h.0 }, fa::replace::CLabelFstPair { label: 2, fst: null() }];
                ("fst_replace", fa::replace::fst_replace(1, l.as_mut_ptr(), 2, false, &mut p))
            }
            108 => {
                let mut l = [fa::replace::CLabelFstPair { label: 1, fst: h.0 }];
                ("fst_replace with a missing root", fa::replace::fst_replace(7, l.as_mut_ptr(), 1, false, &mut p))
            }
            _ => return Err("no such case".into()),
        };
        ft::tr_delete(tr);
        if st(r.0, r.1)? {
            return Err(format!("{} reports success on a null handle", r.0));
        }
        // the destructors accept null
        must("fst_destroy", fst_destroy(null_mut()))?;
        must("tr_delete", ft::tr_delete(null_mut()))?;
        must("trs_vec_delete", fts::trs_vec_delete(null_mut()))?;
        must("symt_destroy", fs::symt_destroy(null_mut()))?;
        let (mut one, mut zero) = (7.0f32, 7.0f32);
        must("fst_weight_one", fst_weight_one(&mut one))?;
        must("fst_weight_zero", fst_weight_zero(&mut zero))?;
        if one != *TropicalWeight::one().value() || zero != *TropicalWeight::zero().value() {
            return Err(format!("weights one {one}, zero {zero}"));
        }
    }
    same("a refused call", &h, &lib(&a), &never)?;
    trace();
    nontrivial();
    Ok(())
}

fn main() {
    run("C31", "model_checking", |m| {
        let d = m.pick(3, 4);
        let bases = vec![
            Aut::empty(),
            Aut {
                n: 2,
                start: Some(0),
                fin: vec![None, Some(1)],
                arcs: vec![Arc5 { s: 0, i: 2, o: 1, w: 1, d: 1 }, Arc5 { s: 0, i: 1, o: 2, w: 0, d: 1 }, Arc5 { s: 1, i: 0, o: 1, w: 2, d: 0 }],
            },
        ];
        m.family(
            "machine-histories",
            "all sequences of interface calls (edits, copies, byte images, tables, relabelling, in-place algorithms; invalid state ids included) on two starting machines, mirrored on the library after every call; then every reader on states that do not exist",
            Prod(bases, Seqs { m: ops().len() as u64, kmin: 1, kmax: d }),
            histories,
        );
        let mut auts = vec![Aut::empty()];
        let pairs = [(0, 0), (1, 2), (2, 1), (0, 1)];
        for n in 1..=2 {
            auts.extend(Auts::new(n, m.pick(2, 3), &pairs).all_starts().aw(&[0, 2]).fw(&[0, 1]).collect(|a| a.arcs.len() < 3 || a.start == Some(0)));
        }
        for k in 0..4 {
            for n in 3..m.pick(5, 7) {
                auts.push(shape(k, n, 1));
            }
        }
        let nu = unaries().len() as u64;
        let mut space = vec![];
        for a in &auts {
            for t in 0..2 {
                if t == 1 && a.arcs.len() > 1 && a.n < 3 {
                    continue;
                }
                for u in 0..nu {
                    space.push((a.clone(), t, u));
                }
            }
        }
        m.family("algorithms-unary", "all machines with up to 2 states and 2 (3) transitions, with and without symbol tables, and larger shapes, times every one-operand function and configuration value, invalid ones included", space, unary);
        let mut small = vec![Aut::empty()];
        for n in 1..=2 {
            small.extend(Auts::new(n, 1, &pairs).all_starts().aw(&[1]).fw(&[1]).collect(|_| true));
        }
        small.extend(Auts::new(1, 2, &[(1, 2), (2, 1), (2, 2)]).aw(&[1]).fw(&[0]).collect(|a| a.fin[0].is_some()));
        if m.thorough() {
            small.extend(Auts::new(2, 2, &[(0, 1), (1, 2), (2, 1)]).kmin(2).aw(&[1]).fw(&[0]).collect(|a| a.is_trim()));
        }
        let mut ps = vec![];
        for a in &small {
            for b in &small {
                ps.push((a.clone(), b.clone()));
            }
        }
        let nb = binaries().len() as u64;
        m.family("algorithms-binary", "all ordered pairs of small machines times every two-operand function, all filters, sigma configurations and invalid enumeration values", Prod(ps, (0..nb).collect::<Vec<_>>()), binary);
        m.family("symbol-table-histories", "all sequences of table operations, with the table shared with a machine and with further handles", Seqs { m: 11, kmin: 1, kmax: m.pick(4, 5) }, symt_hist);
        let mut its = vec![];
        let sq = Seqs { m: 5, kmin: 1, kmax: m.pick(5, 6) };
        for n in 0..3 {
            for k in 0..sq.len() {
                its.push((n, sq.get(k)));
            }
        }
        m.family("iterator-histories", "all sequences of iterator, transition-list and transition operations on states with 0 to 2 transitions, past the end included", its, iter_hist);
        let mut words: Vec<String> = vec![];
        let al = ["a", "b", "c", "", "<eps>"];
        for x in al {
            words.push(x.to_string());
            for y in al {
                words.push(format!("{x} {y}"));
            }
        }
        let mut ws = vec![];
        for x in &words {
            for y in &words {
                ws.push((x.clone(), y.clone()));
            }
        }
        m.family("linear-machines", "all pairs of symbol strings of up to two tokens, unknown and empty tokens included", ws, from_strings);
        let fa: Vec<(Aut, usize)> = auts.iter().filter(|a| a.arcs.len() <= 2).step_by(m.pick(7, 1)).flat_map(|a| [(a.clone(), 0), (a.clone(), 1)]).collect();
        m.family("files-and-kinds", "writing, reading, drawing and copying both kinds of machine, wrong kinds of handle, missing files", fa, files);
        m.family("null-handles", "every exported function with a null handle in each position", (0..109).collect::<Vec<u64>>(), nulls);
        m.assumptions = vec![
            "handles are passed only to functions of their own opaque type (machine, table, transition, iterator, configuration) and not used after being destroyed; C strings are not null".into(),
            "an absent start state, final weight or symbol table leaves the output parameter untouched, by design".into(),
            "inputs on which the library operation itself panics or need not terminate are left to the properties of that operation".into(),
        ];
    });
}
