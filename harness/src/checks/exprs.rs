//! C01, C02, C03: random typed expressions against the reference interpreter.
use crate::comp::Opts;
use crate::exec::test_prog;
use crate::lang::gen::{Gen, Profile};
use crate::lang::Prog;
use crate::lang::print::Style;
use crate::rng::Rng;
use crate::runner::{CheckDef, Ctx, JobOut};

pub fn style(j: usize, r: &mut Rng) -> Style {
    match j % 3 {
        0 => Style::plain(),
        1 => Style::varied(r.next()),
        _ => Style::full(r.next()),
    }
}

fn jobs(t: bool) -> usize {
    if t {
        16000
    } else {
        700
    }
}

fn run_profile(f: Profile, units: usize, nvec: usize, j: usize, r: &mut Rng, out: &mut JobOut, adts: usize, label: &str) {
    let st = style(j, r);
    let p = {
        let mut g = Gen::new(r, f);
        g.gen_adts(adts);
        for i in 0..units {
            let f = g.gen_func(&format!("top{i}"));
            g.p.tops.push(f);
        }
        g.p
    };
    test_prog(&p, &st, &Opts::default(), nvec, r, out, true, label);
}

pub fn c01() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        if j % 10 == 7 {
            let st = style(j / 10, r);
            let p = operator_program(r, 12);
            test_prog(&p, &st, &Opts::default(), 40, r, out, true, "operators");
            return;
        }
        let mut f = Profile::base();
        match j % 4 {
            0 => {
                f.depth = 2;
            }
            1 => {
                f.depth = 3;
                f.wide_pct = 40;
                f.max_w = 140;
                f.max_bits = 400;
            }
            2 => {
                f.zero_pct = if j % 8 == 2 { 8 } else { 40 };
                f.wide_pct = 5;
            }
            _ => {
                f.depth = 5;
            }
        }
        run_profile(f, 12, 40, j, r, out, 0, "expression");
    }
    CheckDef {
        id: "C01",
        jobs,
        run,
        rule: "Random well typed combinational functions (operators, casts, extensions, slices, blocks, if; widths 0 to 140) printed as Spade in three notations, compiled, and simulated on all inputs when there are few and on random and boundary inputs otherwise; every output bit is compared with the reference interpreter. Non-trivial: the reference output takes at least two values over the inputs.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference interpreter of the model language states the documented meaning of Spade",
        ],
        crash_is_violation: true,
    }
}

pub fn c02() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        if j % 2 == 1 {
            return crate::checks::exhaust::job(r, out);
        }
        let mut f = Profile::base();
        f.matches = 14;
        f.iflet = 5;
        f.aggs = 2;
        f.tys = [4, 5, 5, 6, 2, 10, 5];
        f.wide_pct = 4;
        f.max_bits = 90;
        f.depth = 3;
        run_profile(f, 10, 60, j, r, out, 5, "match");
    }
    CheckDef {
        id: "C02",
        jobs: |t| if t { 8000 } else { 400 },
        run,
        rule: "Random matches, if lets and pattern bindings over random enums, structs, tuples, arrays and integers, simulated against first-arm-wins reference semantics; plus random sets of arms whose exhaustiveness is decided by enumerating every value of the type and compared with the compiler's verdict, and with a witness. Non-trivial: the reference output takes at least two values, or the arm set is a distinct one.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference interpreter of the model language states the documented meaning of Spade",
        ],
        crash_is_violation: true,
    }
}

pub fn c03() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let mut f = Profile::base();
        f.aggs = 12;
        f.arrays = 3;
        f.dynidx = 4;
        f.matches = 2;
        f.tys = [2, 4, 4, 8, 8, 8, 4];
        f.max_bits = 300;
        f.depth = 3;
        if j % 3 == 0 {
            f.zero_pct = 10;
        }
        run_profile(f, 10, 40, j, r, out, 5, "aggregate");
    }
    CheckDef {
        id: "C03",
        jobs,
        run,
        rule: "Random programs which build, nest, project, index and slice structs, enums, tuples and arrays; module ports are compared bit for bit with a reference layout. Non-trivial: the reference output takes at least two values over the inputs.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference interpreter of the model language states the documented meaning of Spade",
        ],
        crash_is_violation: true,
    }
}

pub fn abstraction_program(j: usize, r: &mut Rng) -> Prog {
    let mut f = Profile::base();
    f.matches = 2;
    f.iflet = 1;
    f.aggs = 4;
    f.calls = 14;
    f.methods = 12;
    f.lambdas = 6;
    f.hofs = 4;
    f.arrays = 3;
    f.tys = [4, 6, 6, 3, 3, 6, 3];
    f.wide_pct = 4;
    f.max_bits = 120;
    f.depth = 3;
    {
        let mut g = Gen::new(r, f);
        g.gen_adts(3);
        if j % 4 != 3 {
            g.gen_traits(2);
            g.gen_inherent(1);
        }
        for i in 0..5 {
            // only the last helper may be an entity: functions cannot instantiate it
            let k = if g.r.chance(2, 3) { g.gen_generic_func(&format!("h{i}")) } else { g.gen_func(&format!("h{i}")) };
            g.callable.push(k);
            if g.r.chance(1, 3) {
                g.p.funcs[k].attrs.push("inline".into());
            }
            if i >= 3 && g.r.chance(1, 3) {
                g.p.funcs[k].entity = true;
            }
        }
        for i in 0..8 {
            g.in_entity = g.r.bool();
            let f = g.gen_func(&format!("top{i}"));
            g.p.funcs[f].entity = g.in_entity;
            g.p.tops.push(f);
        }
        g.p
    }
}

/// expressions made of operators, on few types, so that all of them meet without casts between them
pub fn operator_program(r: &mut Rng, units: usize) -> Prog {
    use crate::lang::{BinOp::*, UnOp::*, *};
    fn tree(g: &mut Gen, t: &Ty, d: usize, vars: &[(VarId, Ty)]) -> E {
        let bx = Box::new;
        if d == 0 || g.r.chance(1, 8) {
            let c: Vec<_> = vars.iter().filter(|v| v.1 == *t).collect();
            let v = c[g.r.below(c.len())].0;
            return g.e(t, K::Var(v));
        }
        if *t == Ty::Bool {
            let k = match g.r.below(8) {
                0 => K::Un(Not, bx(tree(g, t, d - 1, vars))),
                1..=3 => {
                    let op = *g.r.pick(&[LAnd, LOr, LXor]);
                    K::Bin(op, bx(tree(g, t, d - 1, vars)), bx(tree(g, t, d - 1, vars)))
                }
                k => {
                    let tys: Vec<Ty> = vars.iter().map(|v| v.1.clone()).filter(|t| *t != Ty::Bool || k == 4).collect();
                    let t = g.r.pick(&tys).clone();
                    let op = if t == Ty::Bool { *g.r.pick(&[Eq, Ne]) } else { *g.r.pick(&[Eq, Ne, Lt, Le, Gt, Ge]) };
                    K::Bin(op, bx(tree(g, &t, d - 1, vars)), bx(tree(g, &t, d - 1, vars)))
                }
            };
            return g.e(t, k);
        }
        let signed = matches!(t, Ty::Int(_));
        let k = match g.r.below(12) {
            0 => K::Un(BitNot, bx(tree(g, t, d - 1, vars))),
            1 if signed => K::Un(WNeg, bx(tree(g, t, d - 1, vars))),
            _ => {
                let op = *g.r.pick(&[WAdd, WSub, WMul, And, Or, Xor, Shl, Shr, AShr, WShl, WShr]);
                K::Bin(op, bx(tree(g, t, d - 1, vars)), bx(tree(g, t, d - 1, vars)))
            }
        };
        g.e(t, k)
    }
    let mut g = Gen::new(r, Profile::base());
    for i in 0..units {
        let w = g.r.range(3, 9);
        let t = if g.r.bool() { Ty::Int(Nx::K(w)) } else { Ty::UInt(Nx::K(w)) };
        let tys = [t.clone(), t.clone(), t.clone(), Ty::Bool, Ty::Bool, Ty::Bool];
        let ret = if g.r.bool() { t.clone() } else { Ty::Bool };
        let f = g.gen_func_sig(&format!("top{i}"), &tys, &ret);
        let vars: Vec<(VarId, Ty)> = g.p.funcs[f].params.iter().copied().zip(tys).collect();
        let d = g.r.range(3, 5);
        let e = tree(&mut g, &ret, d, &vars);
        g.p.funcs[f].body = Some(e);
        g.p.tops.push(f);
    }
    g.p
}

/// all kinds of combinational programs
pub fn mixed_program(j: usize, r: &mut Rng) -> Prog {
    if j % 4 == 3 {
        return operator_program(r, 12);
    }
    if j % 2 == 0 {
        return abstraction_program(j / 2, r);
    }
    let mut f = Profile::base();
    f.matches = 5;
    f.iflet = 2;
    f.aggs = 5;
    f.arrays = 2;
    f.dynidx = 2;
    f.tys = [4, 6, 6, 3, 3, 6, 3];
    f.max_bits = 150;
    f.depth = 4;
    let mut g = Gen::new(r, f);
    g.gen_adts(3);
    for i in 0..8 {
        let f = g.gen_func(&format!("top{i}"));
        g.p.tops.push(f);
    }
    g.p
}

pub fn c06() -> CheckDef {
    fn run(_c: &Ctx, j: usize, r: &mut Rng, out: &mut JobOut) {
        let st = style(j, r);
        let p = abstraction_program(j, r);
        test_prog(&p, &st, &Opts::default(), 40, r, out, true, "abstraction");
    }
    CheckDef {
        id: "C06",
        jobs,
        run,
        rule: "Random programs of generic functions over types and numbers with trait bounds, trait and inherent methods, struct and enum generics, lambdas with captures passed to higher order functions, inlined units and entities; the simulated outputs are compared with a reference interpreter which expands every abstraction at its use. Non-trivial: the reference output takes at least two values over the inputs.",
        assumptions: &[
            "the harness's Verilog simulator implements IEEE 1800 for the constructs that are emitted",
            "the reference interpreter of the model language states the documented meaning of Spade",
        ],
        crash_is_violation: true,
    }
}
