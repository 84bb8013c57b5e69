//! Reference model of the artifact API: the documented rules, written independently of the code.
use crate::spec::*;
use faerie::ArtifactError;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exp {
    Ok,
    Undeclared(String),
    ImportDefined(String),
    RelocateImport(String),
    Incompatible { old: D, new: D },
    Duplicate(String),
    ZeroInit(D),
    NonSecSyms(D, Vec<(String, u64)>),
}

#[derive(Clone, Debug)]
pub struct MDecl {
    pub d: D,
    pub def: Option<(Body, Vec<(String, u64)>)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MLink {
    pub from: String,
    pub to: String,
    pub at: u64,
    pub rel: Rel,
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub order: Vec<String>,
    pub decls: BTreeMap<String, MDecl>,
    pub links: Vec<MLink>,
}

/// The merge rule: Some(result) or None for incompatible.
pub fn merge(old: D, new: D) -> Option<D> {
    if old == new {
        return Some(old);
    }
    match (old, new) {
        (D::FnImport, D::Fn { .. }) => Some(new),
        (D::DataImport, D::Data { .. }) => Some(new),
        (D::Fn { .. }, D::FnImport) => Some(old),
        (D::Data { .. }, D::DataImport) => Some(old),
        _ => None,
    }
}

impl Model {
    fn declare(&mut self, name: &str, d: D) -> Exp {
        match self.decls.get_mut(name) {
            None => {
                self.order.push(name.to_string());
                self.decls.insert(name.to_string(), MDecl { d, def: None });
                Exp::Ok
            }
            Some(m) => match merge(m.d, d) {
                Some(r) => {
                    m.d = r;
                    Exp::Ok
                }
                None => Exp::Incompatible { old: m.d, new: d },
            },
        }
    }
    fn define(&mut self, name: &str, body: &Body, syms: &[(String, u64)]) -> Vec<Exp> {
        let m = match self.decls.get_mut(name) {
            None => return vec![Exp::Undeclared(name.into())],
            Some(m) => m,
        };
        // every reason that applies is an admissible answer: the rules do not rank them
        let mut errs = vec![];
        if m.def.is_some() {
            errs.push(Exp::Duplicate(name.into()));
        }
        if m.d.is_import() {
            errs.push(Exp::ImportDefined(name.into()));
        } else {
            if !syms.is_empty() && !m.d.is_section() {
                errs.push(Exp::NonSecSyms(m.d, syms.to_vec()));
            }
            if body.is_zero() && !matches!(m.d, D::Data { .. }) {
                errs.push(Exp::ZeroInit(m.d));
            }
        }
        if errs.is_empty() {
            m.def = Some((body.clone(), syms.to_vec()));
            errs.push(Exp::Ok);
        }
        errs
    }
    /// Admissible outcomes of the call, applying its effect.
    pub fn apply(&mut self, op: &Op) -> Vec<Exp> {
        match op {
            Op::Declare { name, d, .. } => vec![self.declare(name, *d)],
            Op::Bulk { items } => {
                for (n, d) in items {
                    match self.declare(n, *d) {
                        Exp::Ok => {}
                        e => return vec![e],
                    }
                }
                vec![Exp::Ok]
            }
            Op::DeclareWith { name, d, body, .. } => match self.declare(name, *d) {
                Exp::Ok => self.define(name, body, &[]),
                e => vec![e],
            },
            Op::Define { name, body, syms, .. } => self.define(name, body, syms),
            Op::Link { from, to, at, rel } => {
                let mut errs = vec![];
                match self.decls.get(from) {
                    None => errs.push(Exp::Undeclared(from.clone())),
                    Some(m) if m.d.is_import() => errs.push(Exp::RelocateImport(from.clone())),
                    _ => {}
                }
                if !self.decls.contains_key(to) {
                    let e = Exp::Undeclared(to.clone());
                    if !errs.contains(&e) {
                        errs.push(e);
                    }
                }
                if errs.is_empty() {
                    self.links.push(MLink {
                        from: from.clone(),
                        to: to.clone(),
                        at: *at,
                        rel: *rel,
                    });
                    errs.push(Exp::Ok);
                }
                errs
            }
        }
    }
    pub fn imports(&self) -> Vec<(String, D)> {
        self.order
            .iter()
            .filter(|n| self.decls[*n].d.is_import())
            .map(|n| (n.clone(), self.decls[n].d))
            .collect()
    }
    pub fn undefined(&self) -> Vec<String> {
        self.order
            .iter()
            .filter(|n| !self.decls[*n].d.is_import() && self.decls[*n].def.is_none())
            .cloned()
            .collect()
    }
    pub fn program(&self) -> Program {
        let mut p = Program::default();
        for n in &self.order {
            let m = &self.decls[n];
            if m.d.is_import() {
                p.imports.push((n.clone(), m.d));
            } else if let Some((b, s)) = &m.def {
                p.defs.push(PDef {
                    name: n.clone(),
                    d: m.d,
                    body: b.clone(),
                    syms: s.clone(),
                });
            }
        }
        p.links = self.links.clone();
        p
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PDef {
    pub name: String,
    pub d: D,
    pub body: Body,
    pub syms: Vec<(String, u64)>,
}
/// What a complete artifact says.
#[derive(Clone, Debug, Default)]
pub struct Program {
    pub defs: Vec<PDef>,
    pub imports: Vec<(String, D)>,
    pub links: Vec<MLink>,
}
impl Program {
    pub fn decl(&self, name: &str) -> Option<D> {
        self.defs
            .iter()
            .find(|d| d.name == name)
            .map(|d| d.d)
            .or_else(|| self.imports.iter().find(|i| i.0 == name).map(|i| i.1))
    }
    pub fn def(&self, name: &str) -> Option<&PDef> {
        self.defs.iter().find(|d| d.name == name)
    }
}

fn err_matches(e: &ArtifactError, x: &Exp) -> bool {
    match (e, x) {
        (ArtifactError::Undeclared(n), Exp::Undeclared(m)) => n == m,
        (ArtifactError::ImportDefined(n), Exp::ImportDefined(m)) => n == m,
        (ArtifactError::RelocateImport(n), Exp::RelocateImport(m)) => n == m,
        (ArtifactError::IncompatibleDeclaration { old, new }, Exp::Incompatible { old: o, new: n }) => {
            *old == o.to_decl(0) && *new == n.to_decl(0)
        }
        (ArtifactError::DuplicateDefinition(n), Exp::Duplicate(m)) => n == m,
        (ArtifactError::InvalidZeroInit(d), Exp::ZeroInit(m)) => faerie::Decl::Defined(*d) == m.to_decl(0),
        (ArtifactError::NonSectionCustomSymbols(d, s), Exp::NonSecSyms(m, t)) => {
            faerie::Decl::Defined(*d) == m.to_decl(0) && *s == t.iter().cloned().collect::<BTreeMap<_, _>>()
        }
        _ => false,
    }
}

pub fn outcome_ok(r: &Result<(), ArtifactError>, exp: &[Exp]) -> Result<(), String> {
    let ok = match r {
        Ok(()) => exp.iter().any(|e| *e == Exp::Ok),
        Err(e) => exp.iter().any(|x| err_matches(e, x)),
    };
    // the message a user gets names what is concerned
    if let Err(
        e @ (ArtifactError::Undeclared(n)
        | ArtifactError::ImportDefined(n)
        | ArtifactError::RelocateImport(n)
        | ArtifactError::DuplicateDefinition(n)),
    ) = r
    {
        let m = e.to_string();
        if n.len() < 4096 && !m.contains(n.as_str()) && !m.contains(&format!("{n:?}")) {
            return Err(format!("the message of {e:?} is {m:?}, without the name"));
        }
    }
    if ok {
        Ok(())
    } else {
        Err(format!("call returned {r:?}, the rules allow {exp:?}"))
    }
}
