//! libdrv: runs scripts of doctor_syn calls inside the simulator; see core.rs
use doctor_syn::bdmath as bd;
use doctor_syn::bdmath::BigDecimal;
use doctor_syn::codegen;
use doctor_syn::polynomial::Polynomial;
use doctor_syn::visitor::Visitor;
use doctor_syn::{Expression, Name, Parity, VariableList};
use std::convert::TryFrom;
use std::str::FromStr;

mod core;
use crate::core::Op;

fn ex(s: &str) -> Expression {
    Expression::from_str(s).expect("script: expression")
}
fn nm(s: &str) -> Name {
    Name::from(doctor_syn::syn::parse_str::<doctor_syn::syn::Path>(s).expect("script: name"))
}
fn num(s: &str) -> BigDecimal {
    BigDecimal::from_str(s).expect("script: number")
}
fn int(s: &str) -> i64 {
    s.parse().expect("script: integer")
}
fn parity(s: &str) -> Parity {
    match s {
        "odd" => Parity::Odd,
        "even" => Parity::Even,
        _ => Parity::Neither,
    }
}
fn res(r: doctor_syn::Result<Expression>) -> String {
    match r {
        Ok(e) => format!("{}", e),
        Err(e) => format!("E {} / {:?}", e, e),
    }
}
fn bdr(r: BigDecimal) -> String {
    let (i, e) = r.as_bigint_and_exponent();
    format!("{} e{}", i, e)
}
fn bdo(r: Option<BigDecimal>) -> String {
    r.map(bdr).unwrap_or_else(|| "none".into())
}
fn varlist(a: &[String]) -> VariableList {
    let mut v = VariableList::new();
    for p in a.chunks(2) {
        v.add_var(nm(&p[0]), ex(&p[1]));
    }
    v
}

/// A user's visitor; it counts down and then panics.
struct Bomb(std::cell::Cell<i64>);
impl Visitor for Bomb {
    fn visit_lit(&self, e: &doctor_syn::syn::ExprLit) -> doctor_syn::Result<doctor_syn::syn::Expr> {
        self.0.set(self.0.get() - 1);
        if self.0.get() < 0 {
            panic!("visitor gives up");
        }
        Ok(e.clone().into())
    }
}
struct Ident;
impl Visitor for Ident {}

/// A user's visitor that writes down what it sees and changes some of it.
struct Recorder(std::cell::RefCell<Vec<String>>, String);
impl Recorder {
    fn note(&self, what: &str, t: &dyn doctor_syn::quote::ToTokens) {
        self.0.borrow_mut().push(format!("{} {}", what, t.to_token_stream()));
    }
}
impl Visitor for Recorder {
    fn visit_lit(&self, e: &doctor_syn::syn::ExprLit) -> doctor_syn::Result<doctor_syn::syn::Expr> {
        self.note("lit", e);
        if self.1 == "lit" {
            return Ok(ex("(1 + 1)").into_inner());
        }
        if self.1 == "fail" {
            return Err(doctor_syn::error::Error::Overflow);
        }
        Ok(e.clone().into())
    }
    fn visit_path(&self, e: &doctor_syn::syn::ExprPath) -> doctor_syn::Result<doctor_syn::syn::Expr> {
        self.note("path", e);
        if self.1 == "path" {
            return Err(doctor_syn::error::Error::UndefinedVariable(format!("{}", Expression::from(doctor_syn::syn::Expr::from(e.clone())))));
        }
        Ok(e.clone().into())
    }
    fn visit_field(&self, e: &doctor_syn::syn::ExprField) -> doctor_syn::Result<doctor_syn::syn::Expr> {
        self.note("field", e);
        self.visit_expr(&e.base)
    }
    fn visit_unary(&self, e: &doctor_syn::syn::ExprUnary) -> doctor_syn::Result<doctor_syn::syn::Expr> {
        self.note("unary", e);
        self.visit_expr(&e.expr)
    }
    fn visit_paren(&self, e: &doctor_syn::syn::ExprParen) -> doctor_syn::Result<doctor_syn::syn::Expr> {
        self.note("paren", e);
        self.visit_expr(&e.expr)
    }
}

fn call(op: &Op) -> String {
    let a = &op.a;
    match op.kind.as_str() {
        "eval" => res(ex(&a[1]).eval(int(&a[0]))),
        "approx" => res(ex(&a[6]).approx(
            int(&a[0]) as usize,
            f64::from_str(&a[1]).unwrap(),
            f64::from_str(&a[2]).unwrap(),
            nm(&a[3]),
            parity(&a[4]),
            int(&a[5]),
        )),
        "expand" => res(ex(&a[0]).expand()),
        "paren" => res(ex(&a[0]).paren()),
        "collect" => res(ex(&a[1]).collect_terms(nm(&a[0]))),
        "subst" => res(ex(&a[0]).subst(varlist(&a[1..]))),
        "unt" => res(ex(&a[2]).use_number_type(&a[0], int(&a[1]) as usize)),
        "display" => format!("{}", ex(&a[0])),
        "debug" => format!("{:?}", ex(&a[0])),
        "parse" => match Expression::from_str(&a[0]) {
            Ok(e) => format!("{}", e),
            Err(e) => format!("E {} / {:?}", e, e),
        },
        "kind" => {
            let e = ex(&a[0]);
            format!("{} {}", e.is_lit(), e.is_numeric())
        }
        "tof64" => match f64::try_from(ex(&a[0])) {
            Ok(v) => format!("{:x}", v.to_bits()),
            Err(e) => format!("E {}", e),
        },
        "tof32" => match f32::try_from(&ex(&a[0])) {
            Ok(v) => format!("{:x}", v.to_bits()),
            Err(e) => format!("E {}", e),
        },
        "tof64r" => match f64::try_from(&ex(&a[0])) {
            Ok(v) => format!("{:x}", v.to_bits()),
            Err(e) => format!("E {}", e),
        },
        "tof32v" => match f32::try_from(ex(&a[0])) {
            Ok(v) => format!("{:x}", v.to_bits()),
            Err(e) => format!("E {}", e),
        },
        "tobdv" => match BigDecimal::try_from(ex(&a[0])) {
            Ok(v) => bdr(v),
            Err(e) => format!("E {}", e),
        },
        "asref" => {
            let e = ex(&a[0]);
            let f = format!("{:?}", e.as_ref());
            let back: doctor_syn::syn::Expr = e.clone().into();
            let _ = e.span();
            format!("{} {} {}", f.len(), f, Expression::from(back))
        }
        "synerr" => match doctor_syn::syn::parse_str::<doctor_syn::syn::Expr>(&a[0]) {
            Ok(e) => format!("{}", Expression::from(e)),
            Err(e) => {
                let e = doctor_syn::error::Error::from(e);
                let b: Box<dyn std::error::Error> = Box::new(e);
                format!("E {} / {:?}", b, b)
            }
        },
        "record" => {
            let v = Recorder(Default::default(), a[0].clone());
            let r = res(v.visit_expr(&ex(&a[1]).into_inner()).map(Expression::from));
            let n = v.0.borrow();
            format!("{} | {}", r, n.join(" ; "))
        }
        "varsfrom" => {
            let l: Vec<(Name, Expression)> = a.chunks(2).map(|p| (nm(&p[0]), ex(&p[1]))).collect();
            let v = VariableList::from(l);
            format!("{} {:?}", v, v)
        }
        "name" => {
            let n = nm(&a[0]);
            let p: doctor_syn::syn::Path = n.clone().into();
            format!("{} {:?} {} {} {}", n, n, n == Name::from(p), n.as_ref().segments.len(), n == nm(&a[1]))
        }
        "tobd" => match BigDecimal::try_from(&ex(&a[0])) {
            Ok(v) => bdr(v),
            Err(e) => format!("E {}", e),
        },
        "fromf64" => format!("{}", Expression::from(f64::from_bits(u64::from_str_radix(&a[0], 16).unwrap()))),
        "fromf32" => format!("{}", Expression::from(f32::from_bits(u32::from_str_radix(&a[0], 16).unwrap()))),
        "frombd" => format!("{}", Expression::from(num(&a[0]))),
        "frombool" => format!("{}", Expression::from(a[0] == "true")),
        "arith" => {
            let (x, y) = (ex(&a[1]), ex(&a[2]));
            format!(
                "{}",
                match a[0].as_str() {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    _ => x / y,
                }
            )
        }
        "eq" => format!("{}", ex(&a[0]) == ex(&a[1])),
        "vars" => {
            let v = varlist(&a[1..]);
            format!("{} {} {:?}", v, v.find(&nm(&a[0])).map(|e| e.to_string()).unwrap_or_else(|| "-".into()), nm(&a[0]))
        }
        "evalsubst" => match ex(&a[1]).subst(varlist(&a[2..])) {
            Ok(e) => res(e.expand().and_then(|e| e.paren()).and_then(|e| e.eval(int(&a[0])))),
            Err(e) => format!("E {}", e),
        },
        "toc" => match doctor_syn::syn::parse_str::<doctor_syn::syn::File>(&a[2]) {
            Ok(f) => codegen::c::to_c(&f, codegen::c::Options { prefix: a[0].clone(), float_suffix: a[1].clone() }),
            Err(e) => format!("parse {}", e),
        },
        "toc0" => match doctor_syn::syn::parse_str::<doctor_syn::syn::File>(&a[0]) {
            Ok(f) => codegen::c::to_c(&f, codegen::c::Options::default()),
            Err(e) => format!("parse {}", e),
        },
        "tosimd0" => match doctor_syn::syn::parse_str::<doctor_syn::syn::File>(&a[0]) {
            Ok(f) => {
                use doctor_syn::quote::ToTokens;
                format!("{}", codegen::portable_simd::to_simd(&f, codegen::portable_simd::Options::default()).to_token_stream())
            }
            Err(e) => format!("parse {}", e),
        },
        "tosimd" => match doctor_syn::syn::parse_str::<doctor_syn::syn::File>(&a[1]) {
            Ok(f) => {
                use doctor_syn::quote::ToTokens;
                let f = codegen::portable_simd::to_simd(&f, codegen::portable_simd::Options { num_bits: int(&a[0]) as usize });
                codegen::rust::format_token_stream(f.to_token_stream())
            }
            Err(e) => format!("parse {}", e),
        },
        "fmt" => match doctor_syn::proc_macro2::TokenStream::from_str(&a[0]) {
            Ok(t) => codegen::rust::format_token_stream(t),
            Err(e) => format!("lex {}", e),
        },
        "poly" => {
            let n = a.len() / 2 - 1;
            let x: Vec<BigDecimal> = a[2..2 + n].iter().map(|s| num(s)).collect();
            let y: Vec<BigDecimal> = a[2 + n..].iter().map(|s| num(s)).collect();
            let p = Polynomial::from_points(&x, &y, int(&a[0]));
            let t: Vec<String> = p.terms().iter().map(|t| bdr(t.clone())).collect();
            format!("{} | {}", t.join(" "), bdr(p.eval(num(&a[1]))))
        }
        "bomb" => res(Bomb(std::cell::Cell::new(int(&a[0]))).visit_expr(&ex(&a[1]).into_inner()).map(Expression::from)),
        "visit" => res(Ident.visit_expr(&ex(&a[0]).into_inner()).map(Expression::from)),
        "ndf" => format!("{}", doctor_syn::num_digits_for(int(&a[0]) as usize)),
        "bd" => {
            let d = int(&a[1]);
            let n = |i: usize| num(&a[2 + i]);
            match a[0].as_str() {
                "round" => bdr(bd::round(n(0), d)),
                "pi" => bdr(bd::pi(d)),
                "sqrt_two" => bdr(bd::sqrt_two(d)),
                "oor2pi" => bdr(bd::one_over_root_two_pi(d)),
                "sqrt" => bdo(bd::sqrt(n(0), d)),
                "sin" => bdr(bd::sin(n(0), d)),
                "cos" => bdr(bd::cos(n(0), d)),
                "tan" => bdr(bd::tan(n(0), d)),
                "exp" => bdr(bd::exp(n(0), d)),
                "asin" => bdr(bd::asin(n(0), d)),
                "acos" => bdr(bd::acos(n(0), d)),
                "atan" => bdr(bd::atan(n(0), d)),
                "ln" => bdo(bd::ln(n(0), d)),
                "log" => bdo(bd::log(n(0), n(1), d)),
                "pow" => bdo(bd::pow(n(0), n(1), d)),
                "erf" => bdr(bd::erf(n(0), d)),
                "erfc" => bdr(bd::erfc(n(0), d)),
                "dnorm" => bdr(bd::dnorm(n(0), n(1), n(2), d)),
                "pnorm" => bdr(bd::pnorm(n(0), n(1), n(2), d)),
                "qnorm" => bdo(bd::qnorm(n(0), n(1), n(2), d)),
                "round_ieee" => match bd::round_ieee(n(0), n(1), d) {
                    Ok(v) => bdr(v),
                    Err(e) => format!("E {}", e),
                },
                "bigd" => bdr(bd::bigd(d as i32)),
                "bigdf" => bdr(bd::bigdf(f64::from_bits(u64::from_str_radix(&a[2], 16).unwrap()))),
                "bigdf32" => bdr(bd::bigdf32(f32::from_bits(u32::from_str_radix(&a[2], 16).unwrap()))),
                "consts" => format!("{} {} {} {}", bdr(bd::zero()), bdr(bd::one()), bdr(bd::half()), bdr(bd::two())),
                _ => panic!("script: bd"),
            }
        }
        // what the crates below doctor_syn do to their static data
        "noise2" => {
            use doctor_syn::quote::ToTokens;
            let e = doctor_syn::syn::parse_str::<doctor_syn::syn::Expr>("f(1.5) + x").expect("script: noise");
            let b = BigDecimal::from_str("1.25").expect("script: noise");
            let _ = doctor_syn::syn::parse_str::<doctor_syn::syn::Expr>("1 +").is_err();
            format!("{} {}", e.to_token_stream(), (b.clone() * b.clone() + b.clone()) / b)
        }
        "mark-panic" => panic!("asked for"),
        _ => panic!("script: unknown call"),
    }
}

fn main() {
    crate::core::drive(call);
}
