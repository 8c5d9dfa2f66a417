//! C06: composition against relation composition.
use mc::*;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::{MatchType, Matcher, SortedMatcher};
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::{SimpleHashMapCache, SimpleVecCache};
use rustfst::algorithms::tr_sort;
use rustfst::prelude::*;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};

const K: usize = 5;
type W = Co<K>;
type V = VectorFst<W>;
/// Largest intermediate string that can occur below the truncation degree.
const LM: usize = 5;

/// Relation with multiplicities forgotten (what redundant filters preserve).
fn idem(r: &Rel<W>) -> Rel<W> {
    r.iter().map(|(k, w)| (*k, Free(w.0.iter().map(|(a, _)| (*a, 1)).collect()))).collect()
}
fn cfg(f: ComposeFilterEnum, connect: bool) -> ComposeConfig {
    ComposeConfig { compose_filter: f, connect, ..Default::default() }
}
const EXACT: [ComposeFilterEnum; 4] =
    [ComposeFilterEnum::AutoFilter, ComposeFilterEnum::SequenceFilter, ComposeFilterEnum::AltSequenceFilter, ComposeFilterEnum::MatchFilter];

fn sorted(f: &V, input: bool) -> V {
    let mut g = f.clone();
    if input {
        tr_sort(&mut g, ILabelCompare {})
    } else {
        tr_sort(&mut g, OLabelCompare {})
    }
    g
}
fn is_sorted(f: &V, input: bool) -> bool {
    f.states_iter().all(|s| {
        let t = f.get_trs(s).unwrap();
        t.trs().windows(2).all(|w| if input { w[0].ilabel <= w[1].ilabel } else { w[0].olabel <= w[1].olabel })
    })
}
fn useful(m: &M<W>) -> Result<(), String> {
    let n = m.n();
    let (mut r, mut c) = (vec![false; n], vec![false; n]);
    if let Some(s) = m.start {
        r[s] = true
    }
    for _ in 0..n {
        for s in 0..n {
            c[s] |= m.fin[s].is_some();
            for t in &m.arcs[s] {
                r[t.3] |= r[s];
                c[s] |= c[t.3];
            }
        }
    }
    if (0..n).any(|s| !r[s] || !c[s]) {
        return Err("trimmed composition has a useless state".into());
    }
    Ok(())
}

struct Opt {
    l: usize,
    full: bool,
}
fn pair(a: &Aut, b: &Aut, o: &Opt) -> Result<(), String> {
    let l = o.l;
    let fa: V = a.fst_gen(0);
    let fb: V = b.fst_gen(a.ngen());
    let ra = relation(&a.m_gen::<K, true>(0), l, LM).unwrap();
    let rb = relation(&b.m_gen::<K, true>(a.ngen()), LM, l).unwrap();
    let want = r_compose(&ra, &rb);
    if !want.is_empty() {
        nontrivial();
    }
    let want_i = idem(&want);
    let (sa, sb) = (sorted(&fa, false), sorted(&fb, true));
    let mut variants: Vec<(&str, V, V)> = vec![("both sides sorted", sa.clone(), sb.clone())];
    if o.full {
        variants.push(("only the first sorted", sa.clone(), fb.clone()));
        variants.push(("only the second sorted", fa.clone(), sb.clone()));
        let mut ka = sa.clone();
        let mut kb = sb.clone();
        ok("flags", ka.compute_and_update_properties_all())?;
        ok("flags", kb.compute_and_update_properties_all())?;
        variants.push(("both sorted, all flags known", ka, kb));
    }
    let eps_free = a.arcs.iter().all(|t| t.o != 0) && b.arcs.iter().all(|t| t.i != 0);
    for (vn, x, y) in &variants {
        for f in EXACT {
            let c: V = ok("compose", compose_with_config::<W, V, V, _, _, V>(x, y, cfg(f, true)))?;
            let m = M::of(&c)?;
            cmp_rel(&format!("composition ({f:?}, {vn})"), &relation(&m, l, l).unwrap(), &want, eq_exact)?;
            useful(&m)?;
            trace();
            if !o.full {
                continue;
            }
            let c: V = ok("compose", compose_with_config::<W, V, V, _, _, V>(x, y, cfg(f, false)))?;
            cmp_rel(&format!("untrimmed composition ({f:?}, {vn})"), &rel_of(&c, l, l)?, &want, eq_exact)?;
            trace();
        }
        if !o.full {
            continue;
        }
        for f in [ComposeFilterEnum::TrivialFilter, ComposeFilterEnum::NoMatchFilter] {
            let c: V = ok("compose", compose_with_config::<W, V, V, _, _, V>(x, y, cfg(f, true)))?;
            cmp_rel(&format!("composition up to multiplicity ({f:?}, {vn})"), &idem(&rel_of(&c, l, l)?), &want_i, eq_exact)?;
            trace();
        }
        if eps_free {
            let c: V = ok("compose", compose_with_config::<W, V, V, _, _, V>(x, y, cfg(ComposeFilterEnum::NullFilter, true)))?;
            cmp_rel(&format!("composition (NullFilter, {vn})"), &rel_of(&c, l, l)?, &want, eq_exact)?;
            trace();
        }
        let d: V = ok("delayed compose", ok("ComposeFst::new_auto", ComposeFst::<W, V, V, _, _, _, _, _>::new_auto(x, y))?.compute())?;
        cmp_rel(&format!("delayed composition ({vn})"), &rel_of(&d, l, l)?, &want, eq_exact)?;
        trace();
    }
    let c: V = ok("compose", compose::<W, V, V, V, _, _>(&sa, &sb))?;
    cmp_rel("composition (default)", &rel_of(&c, l, l)?, &want, eq_exact)?;
    if o.full {
        // immutable operands, hash-map cache, explicit matchers
        let (ca, cb): (ConstFst<W>, ConstFst<W>) = (sa.clone().into(), sb.clone().into());
        let c: V = ok("compose", compose::<W, ConstFst<W>, ConstFst<W>, V, _, _>(&ca, &cb))?;
        cmp_rel("composition of immutable operands", &rel_of(&c, l, l)?, &want, eq_exact)?;
        type Sm<'x> = SortedMatcher<W, V, &'x V>;
        macro_rules! delayed {
            ($b:ident, $cache:ty, $what:expr) => {{
                let m1 = ok("matcher", Sm::new(&sa, MatchType::MatchOutput))?;
                let m2 = ok("matcher", Sm::new(&sb, MatchType::MatchInput))?;
                let opts = ComposeFstOpOptions::<_, _, $b<_, _, _, _, _, Sm, Sm>, _>::new(m1, m2, None, None);
                let f = ok("ComposeFst::new_with_options", ComposeFst::<W, V, V, _, _, _, _, $b<_, _, _, _, _, Sm, Sm>, $cache>::new_with_options(&sa, &sb, opts))?;
                let d: V = ok("compute", f.compute())?;
                cmp_rel($what, &rel_of(&d, l, l)?, &want, eq_exact)?;
                trace();
            }};
        }
        delayed!(SequenceComposeFilterBuilder, SimpleHashMapCache<W>, "delayed composition, hash-map cache, sequence filter");
        delayed!(AltSequenceComposeFilterBuilder, SimpleVecCache<W>, "delayed composition, vector cache, alternate sequence filter");
        delayed!(MatchComposeFilterBuilder, SimpleHashMapCache<W>, "delayed composition, hash-map cache, match filter");
        // neither side sorted
        let (mut ua, mut ub) = (fa.clone(), fb.clone());
        for f in [&mut ua, &mut ub] {
            for s in 0..f.num_states() as StateId {
                let mut t = ok("pop_trs", f.pop_trs(s))?;
                t.reverse();
                for t in t {
                    ok("add_tr", f.add_tr(s, t))?;
                }
            }
        }
        for known in [false, true] {
            if known {
                ok("flags", ua.compute_and_update_properties_all())?;
                ok("flags", ub.compute_and_update_properties_all())?;
            }
            let any = is_sorted(&ua, false) || is_sorted(&ub, true);
            for f in EXACT {
                let r = compose_with_config::<W, V, V, _, _, V>(&ua, &ub, cfg(f, true));
                match r {
                    Ok(c) => {
                        if !any {
                            return Err(format!("composition ({f:?}) of two operands neither of which is sorted was accepted"));
                        }
                        cmp_rel(&format!("composition ({f:?}), at least one side happens to be sorted"), &rel_of(&c, l, l)?, &want, eq_exact)?;
                    }
                    Err(e) => {
                        if any && known {
                            return Err(format!("composition ({f:?}) refused although one side is sorted: {e:#}"));
                        }
                    }
                }
                trace();
            }
        }
    }
    Ok(())
}

fn main() {
    run("C06", "model_checking", |m| {
        let pa = [(1, 0), (1, 1), (2, 2), (0, 1), (0, 0)];
        let pb = [(0, 1), (1, 1), (2, 2), (1, 0), (0, 0)];
        let mut da = vec![Aut::empty()];
        da.extend(Auts::new(1, 2, &pa).all_starts().collect(|_| true));
        let mut db = vec![Aut::empty()];
        db.extend(Auts::new(1, 2, &pb).all_starts().collect(|_| true));
        let (f3, f2) = (Opt { l: 3, full: true }, Opt { l: 3, full: false });
        m.family("n<=1", "all pairs of machines with <=1 state, <=2 arcs over 5 label pairs incl. epsilons, any start; all filters, sort states, caches, storage types", Prod(&da, &db), |(a, b)| pair(a, b, &f3));
        let keep = |a: &Aut| a.is_trim() && a.is_canonical();
        let a2 = Auts::new(2, m.pick(2, 3), &pa[..m.pick(5, 4)]).collect(keep);
        let b2 = Auts::new(2, m.pick(2, 3), &pb[..m.pick(5, 4)]).collect(keep);
        m.family("n=2,k<=2", "all pairs of trim 2-state machines with <=2 arcs over 5 label pairs (up to renaming); all filters, sort states, caches", Prod(&a2, &b2), |(a, b)| pair(a, b, &f3));
        let thorough = m.thorough();
        let a3 = Auts::new(2, 3, &pa[..4]).kmin(3).collect(keep);
        let b3 = Auts::new(2, 3, &pb[..4]).kmin(3).collect(keep);
        let a1 = Auts::new(2, 3, &pa[..4]).collect(|a| keep(a) && (thorough || a.fin[0].is_none()));
        let b1 = Auts::new(2, 3, &pb[..4]).collect(|a| keep(a) && (thorough || a.fin[0].is_none()));
        m.family("n=2,k=3 x small", "all pairs of trim 2-state machines, 3 arcs on the left, <=3 on the right (quick: first state not final); exact filters, both sorted", Prod(&a3, &b1), |(a, b)| pair(a, b, &f2));
        m.family("small x n=2,k=3", "mirror image: <=3 arcs on the left, 3 on the right", Prod(&a1, &b3), |(a, b)| pair(a, b, &f2));
        // 3-state chains with epsilons against one-state epsilon machines
        let a4 = Auts::new(3, m.pick(3, 4), &pa[..4]).collect(|a| keep(a) && a.is_acyclic());
        let b4 = Auts::new(3, m.pick(3, 4), &pb[..4]).collect(|a| keep(a) && a.is_acyclic());
        m.family("n=3 acyclic x n=2", "all acyclic trim 3-state machines with <=3 arcs against all trim 2-state machines with <=1 arc", Prod(&a4, Auts::new(2, 1, &pb).collect(keep)), |(a, b)| pair(a, b, &f3));
        m.family("n=2 x n=3 acyclic", "mirror image", Prod(Auts::new(2, 1, &pa).collect(keep), &b4), |(a, b)| pair(a, b, &f3));
        let n3: Vec<Aut> = a4.iter().filter(|a| a.fin[..].iter().filter(|f| f.is_some()).count() == 1).cloned().collect();
        let m3: Vec<Aut> = b4.iter().filter(|a| a.fin[..].iter().filter(|f| f.is_some()).count() == 1).cloned().collect();
        m.family("n=3 x n=3 acyclic", "all pairs of acyclic trim 3-state machines with <=3 arcs and one final state", Prod(&n3, &m3), |(a, b)| pair(a, b, &f2));
        let pat = riches(&[0, 1, 2, 3, 4], m.pick(&[4, 6][..], &[4, 6, 9][..]), m.pick(1, 2), &[1, 2, 3]);
        m.family("larger", "all ordered pairs of patterned machines of 4 to 6 (9) states: 5 shapes, 3 label profiles", Prod(&pat, &pat), |(a, b)| pair(a, b, &f2));
        m.assumptions = vec!["commutative formal weights, paths of total degree <= 5; strings up to length 3 on the outer sides, any length in the middle (bounded by the degree)".into()];
    })
}
