//! Operator structure and automatic semicolon insertion against a reference
//! parser written from the ECMAScript grammar (expressions over a token list).
use crate::rt::{parse, warm2};
use parse_js::ast::expr::lit::LitArrElem;
use parse_js::ast::expr::pat::Pat;
use parse_js::ast::expr::*;
use parse_js::ast::func::{Func, FuncBody};
use parse_js::ast::node::{Node, ParenthesizedExpr};
use parse_js::ast::stmt::Stmt;
use parse_js::operator::OperatorName as O;
use parse_js::*;
use symrt::*;

pub enum Bad {
    Syntax,
    /// outside what the reference covers
    Skip,
}
use Bad::*;
type P<T> = Result<T, Bad>;
#[derive(Clone, PartialEq)]
enum K {
    Id,
    Member,
    Chain,
    Arr(Vec<Option<N>>),
    /// an assignment `t = e` usable as an element with a default
    Assign(Box<N>),
    Unary,
    Logical,
    Coalesce,
    Rest(Box<N>),
    Other,
}
#[derive(Clone, PartialEq)]
struct N {
    s: String,
    k: K,
    paren: bool,
}
fn n(s: String, k: K) -> N {
    N { s, k, paren: false }
}
pub struct Ref<'a> {
    t: &'a [(&'a str, bool)],
    i: usize,
    gen: bool,
    arrow: u32,
}
const ASSIGN: &[&str] = &["=", "+=", "**=", "&&=", "??=", "||=", ">>>="];
fn prec(op: &str) -> u32 {
    match op {
        "??" => 1,
        "||" => 2,
        "&&" => 3,
        "|" => 4,
        "^" => 5,
        "&" => 6,
        "==" | "!=" | "===" | "!==" => 7,
        "<" | ">" | "<=" | ">=" | "in" | "instanceof" => 8,
        "<<" | ">>" | ">>>" => 9,
        "+" | "-" => 10,
        "*" | "/" | "%" => 11,
        "**" => 12,
        _ => 0,
    }
}
fn ident(x: &str) -> bool {
    matches!(x, "a" | "b" | "c" | "x" | "async" | "of" | "get")
}
impl<'a> Ref<'a> {
    fn p(&self) -> &'a str {
        self.t.get(self.i).map_or("", |x| x.0)
    }
    fn at(&self, i: usize) -> &'a str {
        self.t.get(i).map_or("", |x| x.0)
    }
    fn nl(&self, i: usize) -> bool {
        self.t.get(i).map_or(false, |x| x.1)
    }
    fn is_id(&self, x: &str) -> bool {
        ident(x) || (!self.gen && self.arrow == 0 && matches!(x, "await" | "yield"))
    }
    fn eat(&mut self, x: &str) -> bool {
        let r = self.p() == x;
        if r {
            self.i += 1;
        }
        r
    }
    fn need(&mut self, x: &str) -> P<()> {
        if self.eat(x) {
            Ok(())
        } else {
            Err(Syntax)
        }
    }
    pub fn program(t: &'a [(&'a str, bool)], gen: bool) -> P<String> {
        let mut r = Ref { t, i: 0, gen, arrow: 0 };
        let mut o = String::new();
        while r.i < t.len() {
            if r.eat(";") {
                continue;
            }
            if r.at(r.i + 1) == ":" {
                return Err(Skip); // a label
            }
            let e = r.expr()?;
            o.push_str(&e.s);
            o.push(';');
            if r.eat(";") || r.i == t.len() || r.nl(r.i) {
                continue;
            }
            return Err(Syntax);
        }
        Ok(o)
    }
    fn expr(&mut self) -> P<N> {
        let mut l = self.assign()?;
        while self.eat(",") {
            let r = self.assign()?;
            l = n(format!("(, {} {})", l.s, r.s), K::Other);
        }
        Ok(l)
    }
    /// index just after the `)` matching the `(` at `i`
    fn matching(&self, mut i: usize) -> Option<usize> {
        let mut d = 0;
        while i < self.t.len() {
            match self.t[i].0 {
                "(" | "?.(" | "[" | "?.[" => d += 1,
                ")" | "]" => {
                    d -= 1;
                    if d == 0 {
                        return Some(i + 1);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        None
    }
    fn binding(&mut self) -> P<String> {
        if self.eat("[") {
            let mut o = "([]".to_string();
            loop {
                if self.eat("]") {
                    o.push(')');
                    return Ok(o);
                }
                if self.eat(",") {
                    o.push_str(" _");
                    continue;
                }
                let b = self.binding_elem()?;
                o.push(' ');
                o.push_str(&b);
                if self.p() == "]" {
                    continue;
                }
                self.need(",")?;
            }
        }
        let x = self.p();
        if matches!(x, "await" | "yield") {
            return Err(Skip);
        }
        if !ident(x) {
            return Err(Syntax);
        }
        self.i += 1;
        Ok(x.to_string())
    }
    fn binding_elem(&mut self) -> P<String> {
        let b = self.binding()?;
        if self.eat("=") {
            let e = self.in_arrow(|s| s.assign())?;
            return Ok(format!("(= {} {})", b, e.s));
        }
        Ok(b)
    }
    /// inside an arrow function the outer `yield`/`await` context is not judged
    fn in_arrow(&mut self, f: impl FnOnce(&mut Self) -> P<N>) -> P<N> {
        self.arrow += 1;
        let r = f(self);
        self.arrow -= 1;
        r
    }
    fn arrow_tail(&mut self, asy: bool, params: String) -> P<N> {
        self.need("=>")?;
        let b = self.in_arrow(|s| s.assign())?;
        Ok(n(format!("({}=>({}) {})", if asy { "async" } else { "" }, params, b.s), K::Other))
    }
    fn params(&mut self) -> P<String> {
        self.need("(")?;
        let mut o = String::new();
        let mut seen: Vec<&str> = vec![];
        let start = self.i;
        while !self.eat(")") {
            if !o.is_empty() {
                o.push(' ');
            }
            o.push_str(&self.binding_elem()?);
            if self.p() != ")" {
                self.need(",")?;
            }
        }
        // duplicate names are an early error; only plain lists are judged
        for j in start..self.i {
            let x = self.t[j].0;
            if ident(x) {
                if seen.contains(&x) {
                    return Err(Skip);
                }
                seen.push(x);
            }
        }
        Ok(o)
    }
    fn assign(&mut self) -> P<N> {
        let x = self.p();
        if x == "yield" && (self.gen || self.arrow > 0) {
            if self.arrow > 0 {
                return Err(Skip);
            }
            self.i += 1;
            if self.nl(self.i) {
                return Ok(n("(yield)".into(), K::Other));
            }
            if self.eat("*") {
                let e = self.assign()?;
                return Ok(n(format!("(yield* {})", e.s), K::Other));
            }
            return match self.p() {
                "" | ")" | "]" | ":" | "," | ";" | "in" => Ok(n("(yield)".into(), K::Other)),
                _ => {
                    let e = self.assign()?;
                    Ok(n(format!("(yield {})", e.s), K::Other))
                }
            };
        }
        if x == "async" && !self.nl(self.i + 1) {
            let y = self.at(self.i + 1);
            if (ident(y) || y == "await" || y == "yield") && self.at(self.i + 2) == "=>" && !self.nl(self.i + 2) {
                if !ident(y) {
                    return Err(Skip);
                }
                self.i += 2;
                return self.arrow_tail(true, y.to_string());
            }
            if y == "(" {
                if let Some(j) = self.matching(self.i + 1) {
                    if self.at(j) == "=>" && !self.nl(j) {
                        self.i += 1;
                        let p = self.params()?;
                        return self.arrow_tail(true, p);
                    }
                }
            }
        }
        if self.at(self.i + 1) == "=>" && !self.nl(self.i + 1) && (ident(x) || x == "await" || x == "yield") {
            if !ident(x) {
                return Err(Skip);
            }
            self.i += 1;
            return self.arrow_tail(false, x.to_string());
        }
        if x == "(" {
            if let Some(j) = self.matching(self.i) {
                if self.at(j) == "=>" && !self.nl(j) {
                    let p = self.params()?;
                    return self.arrow_tail(false, p);
                }
            }
        }
        let l = self.cond()?;
        let op = self.p();
        if ASSIGN.contains(&op) {
            self.i += 1;
            if op == "=" {
                self.target(&l)?;
            } else {
                self.simple(&l)?;
            }
            let r = self.assign()?;
            let s = format!("({} {} {})", op, l.s, r.s);
            return Ok(n(s, if op == "=" { K::Assign(Box::new(l)) } else { K::Other }));
        }
        Ok(l)
    }
    fn simple(&self, l: &N) -> P<()> {
        match l.k {
            K::Id | K::Member => Ok(()),
            _ => Err(Syntax),
        }
    }
    fn target(&self, l: &N) -> P<()> {
        match &l.k {
            K::Id | K::Member => Ok(()),
            K::Arr(v) if !l.paren => {
                for (i, e) in v.iter().enumerate() {
                    match e {
                        None => {}
                        Some(N { k: K::Assign(t), paren: false, .. }) => self.target(t)?,
                        Some(N { k: K::Rest(t), .. }) if i + 1 == v.len() => self.target(t)?,
                        Some(e) => self.target(e)?,
                    }
                }
                Ok(())
            }
            _ => Err(Syntax),
        }
    }
    fn cond(&mut self) -> P<N> {
        let c = self.bin(1)?;
        if self.eat("?") {
            let a = self.assign()?;
            self.need(":")?;
            let b = self.assign()?;
            return Ok(n(format!("(? {} {} {})", c.s, a.s, b.s), K::Other));
        }
        Ok(c)
    }
    fn bin(&mut self, min: u32) -> P<N> {
        let mut l = self.unary()?;
        loop {
            let op = self.p();
            let p = prec(op);
            if p == 0 || p < min {
                return Ok(l);
            }
            self.i += 1;
            if op == "**" && l.k == K::Unary && !l.paren {
                return Err(Syntax);
            }
            let r = self.bin(if op == "**" { p } else { p + 1 })?;
            let un = |x: &N, k: K| x.k == k && !x.paren;
            let k = match op {
                "??" => {
                    if un(&l, K::Logical) || un(&r, K::Logical) {
                        return Err(Syntax);
                    }
                    K::Coalesce
                }
                "||" | "&&" => {
                    if un(&l, K::Coalesce) || un(&r, K::Coalesce) {
                        return Err(Syntax);
                    }
                    K::Logical
                }
                _ => K::Other,
            };
            l = n(format!("({} {} {})", op, l.s, r.s), k);
        }
    }
    fn unary(&mut self) -> P<N> {
        let x = self.p();
        match x {
            "+" | "-" | "!" | "~" | "typeof" | "void" => {
                self.i += 1;
                let e = self.unary()?;
                Ok(n(format!("(u{} {})", x, e.s), K::Unary))
            }
            "await" if self.gen && self.arrow == 0 => {
                self.i += 1;
                let e = self.unary()?;
                Ok(n(format!("(await {})", e.s), K::Unary))
            }
            "await" if self.gen || self.arrow > 0 => Err(Skip),
            "++" | "--" => {
                self.i += 1;
                let e = self.unary()?;
                self.simple(&e)?;
                Ok(n(format!("({}p {})", x, e.s), K::Other))
            }
            _ => {
                let e = self.lhs()?;
                let x = self.p();
                if (x == "++" || x == "--") && !self.nl(self.i) {
                    self.simple(&e)?;
                    self.i += 1;
                    return Ok(n(format!("(p{} {})", x, e.s), K::Other));
                }
                Ok(e)
            }
        }
    }
    fn args(&mut self) -> P<String> {
        let mut o = String::new();
        while !self.eat(")") {
            o.push(' ');
            o.push_str(&if self.eat("...") { format!("(... {})", self.assign()?.s) } else { self.assign()?.s });
            if self.p() != ")" {
                self.need(",")?;
            }
        }
        Ok(o)
    }
    fn primary(&mut self) -> P<N> {
        let x = self.p();
        if self.is_id(x) {
            self.i += 1;
            return Ok(n(x.to_string(), K::Id));
        }
        match x {
            "await" | "yield" if self.arrow > 0 => Err(Skip),
            "1" | "this" | "`t`" => {
                self.i += 1;
                Ok(n(x.to_string(), K::Other))
            }
            "(" => {
                self.i += 1;
                let mut e = self.expr()?;
                self.need(")")?;
                e.paren = true;
                Ok(e)
            }
            "[" => {
                self.i += 1;
                let mut v = vec![];
                let mut o = "([]".to_string();
                loop {
                    if self.eat("]") {
                        break;
                    }
                    if self.eat(",") {
                        v.push(None);
                        o.push_str(" _");
                        continue;
                    }
                    let e = if self.eat("...") {
                        let e = self.assign()?;
                        n(format!("(... {})", e.s), K::Rest(Box::new(e)))
                    } else {
                        self.assign()?
                    };
                    o.push(' ');
                    o.push_str(&e.s);
                    let rest = matches!(e.k, K::Rest(_));
                    v.push(Some(e));
                    if self.p() != "]" {
                        self.need(",")?;
                        if rest {
                            // `[...a,]` is no pattern
                            v.push(None);
                        }
                    }
                }
                o.push(')');
                Ok(n(o, K::Arr(v)))
            }
            _ => Err(Syntax),
        }
    }
    fn base(e: N) -> String {
        if e.paren && e.k == K::Chain {
            format!("(paren {})", e.s)
        } else {
            e.s
        }
    }
    /// `new`: (node, whether arguments were given)
    fn new_expr(&mut self) -> P<(N, bool)> {
        self.need("new")?;
        let mut e = if self.p() == "new" {
            let (e, args) = self.new_expr()?;
            if !args {
                return Ok((n(format!("(new {})", e.s), K::Other), false));
            }
            e
        } else {
            self.primary()?
        };
        loop {
            match self.p() {
                ".c" => {
                    self.i += 1;
                    e = n(format!("(. {} c)", Self::base(e)), K::Member);
                }
                "[" => {
                    self.i += 1;
                    let x = self.expr()?;
                    self.need("]")?;
                    e = n(format!("([ {} {})", Self::base(e), x.s), K::Member);
                }
                "`t`" => {
                    self.i += 1;
                    e = n(format!("(tag {})", Self::base(e)), K::Other);
                }
                "(" => {
                    self.i += 1;
                    let a = self.args()?;
                    return Ok((n(format!("(new {}{})", Self::base(e), a), K::Other), true));
                }
                "?.c" | "?.(" | "?.[" => return Err(Syntax),
                _ => return Ok((n(format!("(new {})", Self::base(e)), K::Other), false)),
            }
        }
    }
    fn lhs(&mut self) -> P<N> {
        let mut e = if self.p() == "new" {
            let (e, args) = self.new_expr()?;
            if !args {
                return Ok(e);
            }
            e
        } else {
            self.primary()?
        };
        let mut chain = false;
        loop {
            let x = self.p();
            let k = |c: bool| if c { K::Chain } else { K::Member };
            match x {
                ".c" => {
                    self.i += 1;
                    e = n(format!("(. {} c)", Self::base(e)), k(chain));
                }
                "?.c" => {
                    self.i += 1;
                    chain = true;
                    e = n(format!("(?. {} c)", Self::base(e)), K::Chain);
                }
                "[" | "?.[" => {
                    self.i += 1;
                    let m = self.expr()?;
                    self.need("]")?;
                    chain |= x != "[";
                    e = n(format!("({} {} {})", if x == "[" { "[" } else { "?[" }, Self::base(e), m.s), k(chain));
                }
                "(" | "?.(" => {
                    self.i += 1;
                    let a = self.args()?;
                    chain |= x != "(";
                    e = n(format!("({} {}{})", if x == "(" { "call" } else { "?call" }, Self::base(e), a), if chain { K::Chain } else { K::Other });
                }
                "`t`" => {
                    if chain {
                        return Err(Syntax);
                    }
                    self.i += 1;
                    e = n(format!("(tag {})", Self::base(e)), K::Other);
                }
                _ => return Ok(e),
            }
        }
    }
}

// ---- the tree parse-js builds, in the same notation ----
fn op_text(o: O) -> &'static str {
    match o {
        O::Addition | O::UnaryPlus => "+",
        O::Subtraction | O::UnaryNegation => "-",
        O::Multiplication => "*",
        O::Division => "/",
        O::Remainder => "%",
        O::Exponentiation => "**",
        O::LogicalAnd => "&&",
        O::LogicalOr => "||",
        O::NullishCoalescing => "??",
        O::BitwiseAnd => "&",
        O::BitwiseOr => "|",
        O::BitwiseXor => "^",
        O::BitwiseLeftShift => "<<",
        O::BitwiseRightShift => ">>",
        O::BitwiseUnsignedRightShift => ">>>",
        O::LessThan => "<",
        O::LessThanOrEqual => "<=",
        O::GreaterThan => ">",
        O::GreaterThanOrEqual => ">=",
        O::Equality => "==",
        O::Inequality => "!=",
        O::StrictEquality => "===",
        O::StrictInequality => "!==",
        O::In => "in",
        O::Instanceof => "instanceof",
        O::Comma => ",",
        O::Assignment => "=",
        O::AssignmentAddition => "+=",
        O::AssignmentExponentiation => "**=",
        O::AssignmentLogicalAnd => "&&=",
        O::AssignmentLogicalOr => "||=",
        O::AssignmentNullishCoalescing => "??=",
        O::AssignmentBitwiseUnsignedRightShift => ">>>=",
        O::LogicalNot => "!",
        O::BitwiseNot => "~",
        O::Typeof => "typeof",
        O::Void => "void",
        O::PostfixIncrement | O::PrefixIncrement => "++",
        O::PostfixDecrement | O::PrefixDecrement => "--",
        _ => "?op",
    }
}
fn chain(e: &Node<Expr>) -> bool {
    let sub = |o: bool, x: &Node<Expr>| o || (x.assoc.get::<ParenthesizedExpr>().is_none() && chain(x));
    match &*e.stx {
        Expr::Member(m) => sub(m.stx.optional_chaining, &m.stx.left),
        Expr::ComputedMember(m) => sub(m.stx.optional_chaining, &m.stx.object),
        Expr::Call(m) => sub(m.stx.optional_chaining, &m.stx.callee),
        _ => false,
    }
}
fn base(e: &Node<Expr>) -> String {
    if e.assoc.get::<ParenthesizedExpr>().is_some() && chain(e) {
        format!("(paren {})", show(e))
    } else {
        show(e)
    }
}
fn args(a: &[Node<CallArg>]) -> String {
    let mut o = String::new();
    for x in a {
        o.push(' ');
        o.push_str(&if x.stx.spread { format!("(... {})", show(&x.stx.value)) } else { show(&x.stx.value) });
    }
    o
}
fn pat(p: &Node<Pat>) -> String {
    match &*p.stx {
        Pat::Id(i) => i.stx.name.clone(),
        Pat::AssignTarget(e) => show(e),
        Pat::Arr(a) => arr_pat(&a.stx),
        Pat::Obj(_) => "?obj".into(),
    }
}
fn arr_pat(a: &pat::ArrPat) -> String {
    let mut o = "([]".to_string();
    for e in &a.elements {
        o.push(' ');
        o.push_str(&match e {
            None => "_".to_string(),
            Some(e) => match &e.default_value {
                None => pat(&e.target),
                Some(d) => format!("(= {} {})", pat(&e.target), show(d)),
            },
        });
    }
    if let Some(r) = &a.rest {
        o.push_str(&format!(" (... {})", pat(r)));
    }
    o.push(')');
    o
}
fn func(f: &Func) -> String {
    let mut ps = String::new();
    for p in &f.parameters {
        if !ps.is_empty() {
            ps.push(' ');
        }
        let b = pat(&p.stx.pattern.stx.pat);
        ps.push_str(&match &p.stx.default_value {
            None => b,
            Some(d) => format!("(= {} {})", b, show(d)),
        });
    }
    let b = match &f.body {
        Some(FuncBody::Expression(e)) => show(e),
        _ => "?block".into(),
    };
    format!("({}=>({}) {})", if f.async_ { "async" } else { "" }, ps, b)
}
pub fn show(e: &Node<Expr>) -> String {
    match &*e.stx {
        Expr::Id(i) => i.stx.name.clone(),
        Expr::IdPat(i) => i.stx.name.clone(),
        Expr::This(_) => "this".into(),
        Expr::LitNum(_) => "1".into(),
        Expr::LitTemplate(_) => "`t`".into(),
        Expr::TaggedTemplate(t) => format!("(tag {})", base(&t.stx.function)),
        Expr::Binary(b) => format!("({} {} {})", op_text(b.stx.operator), show(&b.stx.left), show(&b.stx.right)),
        Expr::Cond(c) => format!("(? {} {} {})", show(&c.stx.test), show(&c.stx.consequent), show(&c.stx.alternate)),
        Expr::Member(m) => format!("({} {} {})", if m.stx.optional_chaining { "?." } else { "." }, base(&m.stx.left), m.stx.right),
        Expr::ComputedMember(m) => format!("({} {} {})", if m.stx.optional_chaining { "?[" } else { "[" }, base(&m.stx.object), show(&m.stx.member)),
        Expr::Call(c) => format!("({} {}{})", if c.stx.optional_chaining { "?call" } else { "call" }, base(&c.stx.callee), args(&c.stx.arguments)),
        Expr::LitArr(a) => {
            let mut o = "([]".to_string();
            for x in &a.stx.elements {
                o.push(' ');
                o.push_str(&match x {
                    LitArrElem::Single(e) => show(e),
                    LitArrElem::Rest(e) => format!("(... {})", show(e)),
                    LitArrElem::Empty => "_".into(),
                });
            }
            o.push(')');
            o
        }
        Expr::ArrPat(a) => arr_pat(&a.stx),
        Expr::ArrowFunc(f) => func(&f.stx.func.stx),
        Expr::UnaryPostfix(u) => format!("(p{} {})", op_text(u.stx.operator), show(&u.stx.argument)),
        Expr::Unary(u) => match u.stx.operator {
            O::PrefixIncrement | O::PrefixDecrement => format!("({}p {})", op_text(u.stx.operator), show(&u.stx.argument)),
            O::Await => format!("(await {})", show(&u.stx.argument)),
            // a `yield` without operand is stored as `yield undefined`
            O::Yield => match &*u.stx.argument.stx {
                Expr::Id(i) if i.stx.name == "undefined" => "(yield)".into(),
                _ => format!("(yield {})", show(&u.stx.argument)),
            },
            O::YieldDelegated => format!("(yield* {})", show(&u.stx.argument)),
            O::New => {
                let a = &u.stx.argument;
                match &*a.stx {
                    Expr::Call(c) if a.assoc.get::<ParenthesizedExpr>().is_none() => format!("(new {}{})", base(&c.stx.callee), args(&c.stx.arguments)),
                    _ => format!("(new {})", base(a)),
                }
            }
            o => format!("(u{} {})", op_text(o), show(&u.stx.argument)),
        },
        _ => "?expr".into(),
    }
}
/// the statements of the program (inside the generator when `gen`)
fn show_stmts(b: &[Node<Stmt>]) -> String {
    let mut o = String::new();
    for s in b {
        match &*s.stx {
            Stmt::Expr(e) => {
                o.push_str(&show(&e.stx.expr));
                o.push(';');
            }
            Stmt::Empty(_) => {}
            _ => o.push_str("?stmt;"),
        }
    }
    o
}
fn join(t: &[(&str, bool)]) -> String {
    let mut o = String::new();
    for (x, nl) in t {
        o.push(if *nl { '\n' } else { ' ' });
        o.push_str(x);
    }
    o
}
/// a comma directly follows the expression body of an arrow function
fn swallows(t: &[(&str, bool)]) -> bool {
    for i in 0..t.len() {
        if t[i].0 != "=>" {
            continue;
        }
        let mut d = 0i32;
        for j in i + 1..t.len() {
            match t[j].0 {
                "(" | "[" | "?.(" | "?.[" | "?" => d += 1,
                ")" | "]" | ":" => d -= 1,
                ";" if d == 0 => break,
                "," if d == 0 => return true,
                _ => {}
            }
            if d < 0 {
                break;
            }
        }
    }
    false
}
pub fn judge(t: &[(&str, bool)], gen: bool) {
    let src = join(t);
    let src = if gen { format!("async function*g(){{{}}}", src) } else { src };
    note("src", src.as_bytes());
    let want = match Ref::program(t, gen) {
        Ok(s) => Some(s),
        Err(Syntax) => None,
        Err(Skip) => {
            cover("not judged");
            return;
        }
    };
    if let Some(w) = &want {
        note("want", w.as_bytes());
    } else {
        note("want", b"error");
    }
    for d in [Dialect::Ecma, Dialect::Js] {
        match (parse(&src, d, SourceType::Script), &want) {
            (None, None) => cover("rejected"),
            // early errors are not the parser's job: illegal programs are not judged
            (Some(_), None) => cover("tolerated"),
            (None, Some(_)) if swallows(t) => fail("KNOWN:arrow-comma-parse an expression-bodied arrow swallows the comma after it"),
            (None, Some(_)) => fail("a legal program is rejected"),
            (Some(a), Some(w)) => {
                let got = if gen {
                    match &*a.stx.body[0].stx {
                        Stmt::FunctionDecl(f) => match &f.stx.function.stx.body {
                            Some(FuncBody::Block(b)) => show_stmts(b),
                            _ => "?".into(),
                        },
                        _ => "?".into(),
                    }
                } else {
                    show_stmts(&a.stx.body)
                };
                if got != *w {
                    note("got", got.as_bytes());
                    if swallows(t) {
                        fail("KNOWN:arrow-comma-parse an expression-bodied arrow swallows the comma after it")
                    }
                    fail("the program is parsed with another structure");
                }
                cover("same structure");
            }
        }
    }
}
const TOK: &[&str] = &["a", "b", "1", "+", "-", "*", "**", "&&", "||", "??", "|", "<", "in", "instanceof", "=", "+=", "&&=", "?", ":", ",", "(", ")", "[", "]", ".c", "?.c", "?.(", "?.[", "++", "--", "!", "typeof", "await", "yield", "new", "=>", "async", "`t`", ";", "..."];
const OPS: &[&str] = &["+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "&", "|", "^", "&&", "||", "??", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "in", "instanceof", ",", "=", "+=", "**=", "??=", "=>"];
const RAND: &[&[&str]] = &[&["a"], &["-", "a"], &["(", "a", ")"], &["await", "a"], &["yield", "a"], &["yield"], &["a", "++"], &["--", "a"], &["x", "=>", "a"], &["async", "x", "=>", "a"], &["a", "?", "b", ":", "c"], &["new", "a"], &["a", ".c"], &["a", "?.c"], &["!", "a", ".c"], &["typeof", "a", "(", ")"], &["(", "a", "=", "b", ")"], &["(", "a", "??", "b", ")"], &["(", "a", ",", "b", ")"], &["[", "a", "]"], &["(", "a", ".c", ")"], &["a", "`t`"], &["(", "-", "a", ")"], &["(", "a", "?.c", ")"]];
#[no_mangle]
pub extern "C" fn prec_tok3() {
    warm2();
    let gen = choose("gen", 2) == 1;
    let t = [(pick("t1", TOK), false), (pick("t2", TOK), false), (pick("t3", TOK), false)];
    judge(&t, gen)
}
#[no_mangle]
pub extern "C" fn prec_tok4() {
    warm2();
    const A: &[&str] = &["a", "+", "**", "=", "?", ":", ",", "(", ")", "[", "]", ".c", "?.c", "++", "yield", "new", "=>", "async", "`t`", "..."];
    let gen = choose("gen", 2) == 1;
    let t = [(pick("t1", A), false), (pick("t2", A), false), (pick("t3", A), false), (pick("t4", A), false), ("b", false)];
    let k = if choose("last", 2) == 0 { 4 } else { 5 };
    judge(&t[..k], gen)
}
/// newlines between the tokens
#[no_mangle]
pub extern "C" fn prec_nl() {
    warm2();
    const A: &[&str] = &["a", "+", "++", "--", "(", ")", "[", "]", ".c", "?.c", "yield", "await", "new", "=>", "async", "`t`", ";", "=", "*", "in", ","];
    let gen = choose("gen", 2) == 1;
    let nl = choose("nl", 3) + 1;
    let t = [(pick("t1", A), false), (pick("t2", A), nl & 1 != 0), (pick("t3", A), nl & 2 != 0), ("b", choose("nl3", 2) == 1)];
    let k = if t[3].1 { 4 } else { 3 + choose("last", 2) as usize };
    judge(&t[..k], gen)
}
/// operand op operand op operand
#[no_mangle]
pub extern "C" fn prec_ops() {
    warm2();
    let gen = choose("gen", 2) == 1;
    let slot = choose("slot", 3) as usize;
    let r = RAND[choose("operand", RAND.len() as u64) as usize];
    let ops = [pick("op1", OPS), pick("op2", OPS)];
    let mut t: Vec<(&str, bool)> = vec![];
    for i in 0..3 {
        if i == slot {
            for x in r {
                t.push((*x, false));
            }
        } else {
            t.push((["a", "b", "c"][i], false));
        }
        if i < 2 {
            t.push((ops[i], false));
        }
    }
    judge(&t, gen)
}
const ENDS: &[&str] = &["break", "break l", "continue", "continue l", "debugger", "return", "return a", "throw a", "a", "a.b", "f()", "var a", "var a=1,b", "do;while(a)", "a=1", "yield", "yield a", "await a", "a++", "x=>{}", "let a", "const a=1", "`t`", "/r/", "new a", "class{}.a", "delete a.b"];
/// where a statement ends: every run of white space and semicolons after it
#[no_mangle]
pub extern "C" fn prec_end() {
    warm2();
    let st = pick("stmt", ENDS);
    let follow = choose("follow", 4);
    let n = choose("n", 4) as usize;
    let sep = text_in("sep", n, b" \n;\t\r");
    let semis = sep.bytes().filter(|c| *c == b';').count();
    let nl = sep.bytes().any(|c| c == b'\n' || c == b'\r');
    let lex = st.starts_with("let") || st.starts_with("const");
    let open = semis == 0 && !nl && !st.starts_with("do");
    // a lexical declaration as the arm of an if statement is an early error the binder reports
    if lex && follow == 0 {
        return;
    }
    let (src, ok, count) = match follow {
        0 => (format!("async function*f(){{l:for(;;){{if(a){}{}else b}}}}", st, sep), !open && semis < 2, 1),
        1 => (format!("async function*f(){{l:for(;;){{{}{}}}}}", st, sep), true, semis.max(1)),
        2 => {
            if n == 0 || semis == 0 && (st == "break" || st == "continue" || st == "return" || st == "yield") {
                return;
            }
            (format!("async function*f(){{l:for(;;){{{}{}c}}}}", st, sep), !open, semis.max(1) + 1)
        }
        _ => {
            if st.starts_with("return") || st.starts_with("yield") || st.starts_with("await") || lex {
                return;
            }
            (format!("l:for(;;){}{}", st, sep), true, semis.max(1))
        }
    };
    if st == "class{}.a" {
        return;
    }
    note("src", src.as_bytes());
    let strict = parse(&src, Dialect::Ecma, SourceType::Script);
    let loose = parse(&src, Dialect::Js, SourceType::Script);
    if !ok {
        check(strict.is_none(), "a statement ends where it may not");
        cover("rejected");
        return;
    }
    for t in [strict, loose] {
        let Some(t) = t else { fail("a statement does not end where it may") };
        let mut list = &t.stx.body;
        if follow < 3 {
            let Stmt::FunctionDecl(f) = &*list[0].stx else { fail("not a function") };
            let Some(FuncBody::Block(b)) = &f.stx.function.stx.body else { fail("not a block") };
            let Stmt::Label(l) = &*b[0].stx else { fail("not a label") };
            let Stmt::ForTriple(f) = &*l.stx.statement.stx else { fail("not a loop") };
            list = &f.stx.body.stx.body;
        }
        check(list.len() == count, "another number of statements");
        if follow == 0 {
            let Stmt::If(i) = &*list[0].stx else { fail("not an if statement") };
            check(i.stx.alternate.is_some(), "the else branch is lost");
        }
    }
    cover("same structure");
}
