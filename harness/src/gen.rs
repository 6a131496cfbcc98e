//! Ground-truth generator: builds a module as a token list together with the syntax
//! tree, the index spaces, every definition and every reference (with what it must
//! resolve to), then renders it with an independently chosen layout.
use crate::rng::Rng;
use crate::spec::{self, Imm, V};
use wat_syntax::SyntaxKind as K;

#[derive(Clone, Debug)]
pub struct GTok {
    pub text: String,
    pub kind: K,
    pub parent: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum El {
    N(usize),
    T(usize),
}
#[derive(Clone, Debug)]
pub struct GNode {
    pub kind: K,
    pub ch: Vec<El>,
    pub parent: Option<usize>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Space {
    Func,
    Type,
    Global,
    Memory,
    Table,
    Local,
    Label,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Sig {
    pub params: Vec<(V, Option<String>)>,
    pub results: Vec<V>,
}
#[derive(Clone, Debug)]
pub struct Def {
    pub space: Space,
    pub module: usize,
    /// owning function (def id) for locals and labels; owner_key distinguishes non-function owners
    pub func: Option<usize>,
    pub idx: u32,
    pub name: Option<String>,
    /// token to which a location of this definition points
    pub loc: usize,
    pub node: usize,
    pub imported: bool,
    pub is_param: bool,
    pub sig: Sig,
    /// type index reference used by the definition, if any
    pub type_ref: Option<usize>,
    /// the signature is written inline (param/result present)
    pub inline_sig: bool,
    pub ty: Option<V>,
    pub mutable: bool,
    pub parent_label: Option<usize>,
    /// may be referred to by number
    pub num_ok: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum By {
    Name(String),
    Num(u32),
}
#[derive(Clone, Debug)]
pub struct Ref {
    pub space: Space,
    pub module: usize,
    pub func: Option<usize>,
    pub tok: usize,
    pub by: By,
    /// enclosing labels, innermost first
    pub labels: Vec<usize>,
    pub targets: Vec<usize>,
    /// the instruction or field that holds the reference
    pub site: String,
}
#[derive(Clone, Debug)]
pub struct Opts {
    pub modules: usize,
    pub max_fields: usize,
    pub depth: usize,
    /// percentage of references made by number
    pub numeric: usize,
    /// per-mille of references that are dangling
    pub undefined: usize,
    /// per-mille of definitions that repeat a name of the same space
    pub dup: usize,
    /// names shared between different index spaces
    pub share_names: bool,
    /// percentage of definitions that are named
    pub named: usize,
    /// unfolded instructions allowed
    pub flat: bool,
    pub blocks: bool,
    pub imports: bool,
    /// unknown instruction names and odd operands
    pub wild: bool,
    pub simd: bool,
    pub unicode: bool,
    pub elem_data: bool,
    pub branches: bool,
    /// numeric literals in all their spellings
    pub fancy_nums: bool,
    /// branches to the implicit function label / out of range
    pub calls: bool,
    pub stmts: usize,
    /// numeric references to module fields only where the tool's numbering agrees
    pub tool_idx: bool,
    pub calls_indirect: bool,
    /// locals and labels may take any name used in another scope
    pub share_scopes: bool,
    /// percentage of labels named like an enclosing block
    pub shadow: usize,
    /// well typed throughout: branches carry no values
    pub typed: bool,
    /// plant one type mistake at the n-th opportunity
    pub type_mistake: Option<usize>,
    /// code after branches and `unreachable` that relies on the polymorphic stack, block parameters
    pub poly: bool,
    /// every instruction of the table about as likely as any other
    pub even: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            modules: 1,
            max_fields: 12,
            depth: 3,
            numeric: 30,
            undefined: 0,
            dup: 0,
            share_names: true,
            named: 75,
            flat: true,
            blocks: true,
            imports: true,
            wild: false,
            simd: true,
            unicode: true,
            elem_data: true,
            branches: true,
            fancy_nums: true,
            calls: true,
            stmts: 4,
            tool_idx: false,
            calls_indirect: false,
            share_scopes: false,
            shadow: 0,
            typed: false,
            type_mistake: None,
            poly: false,
            even: false,
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub toks: Vec<GTok>,
    pub nodes: Vec<GNode>,
    pub defs: Vec<Def>,
    pub refs: Vec<Ref>,
    /// node of each module
    pub modules: Vec<usize>,
    pub planted: Vec<Planted>,
}
impl Doc {
    /// First and last token of a node.
    pub fn ends(&self, node: usize) -> Option<(usize, usize)> {
        let edge = |last: bool| {
            let mut n = node;
            loop {
                let ch = &self.nodes[n].ch;
                match if last { ch.last()? } else { ch.first()? } {
                    El::T(t) => return Some(*t),
                    El::N(x) => n = *x,
                }
            }
        };
        Some((edge(false)?, edge(true)?))
    }
}
/// A type mistake.
#[derive(Clone, Debug)]
pub struct Planted {
    pub kind: &'static str,
    /// the node that is reported
    pub node: usize,
    pub message: String,
    /// where further errors may be reported
    pub loose: Option<usize>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum F {
    Type,
    ImpFunc,
    ImpGlobal,
    ImpMem,
    ImpTable,
    Func,
    Global,
    Mem,
    Table,
    Export,
    Start,
    Data,
    Elem,
}
struct Plan {
    kind: F,
    def: Option<usize>,
    inline_import: bool,
}
pub struct G<'r> {
    pub rng: &'r mut Rng,
    pub o: Opts,
    pub d: Doc,
    stack: Vec<usize>,
    module: usize,
    func: Option<usize>,
    locals: Vec<usize>,
    labels: Vec<usize>,
    counter: usize,
    pool: Vec<String>,
    /// results of the function being generated
    results_of_func: Vec<V>,
    /// opportunities for a type mistake left before one is planted
    fuse: Option<usize>,
    /// code after a branch at the outermost level of the function
    poly: bool,
    /// the next value is to have a type that the tool knows
    concrete: bool,
    underflow: Option<usize>,
}

pub const NAME_TAIL: [&str; 14] = ["", "0", "_x", ".y", "!", "#1", "-z", "'s", "/", "=", "~", "*", "Ab", "|"];

pub fn generate(rng: &mut Rng, o: Opts) -> Doc {
    let o_fuse = o.type_mistake;
    let mut g = G { rng, o, d: Doc::default(), stack: vec![], module: 0, func: None, locals: vec![], labels: vec![], counter: 0, pool: vec![], results_of_func: vec![], fuse: o_fuse, poly: false, concrete: false, underflow: None };
    let root = g.open(K::ROOT);
    assert_eq!(root, 0);
    for m in 0..g.o.modules {
        g.module = m;
        g.gen_module();
    }
    g.close();
    let mut d = g.d;
    near_misses(&mut d, g.rng);
    resolve_doc(&mut d);
    d
}

impl G<'_> {
    fn open(&mut self, k: K) -> usize {
        let id = self.d.nodes.len();
        let parent = self.stack.last().copied();
        self.d.nodes.push(GNode { kind: k, ch: vec![], parent });
        if let Some(p) = parent {
            self.d.nodes[p].ch.push(El::N(id));
        }
        self.stack.push(id);
        id
    }
    fn close(&mut self) {
        self.stack.pop();
    }
    fn t(&mut self, kind: K, text: impl Into<String>) -> usize {
        let id = self.d.toks.len();
        let p = *self.stack.last().unwrap();
        self.d.toks.push(GTok { text: text.into(), kind, parent: p });
        self.d.nodes[p].ch.push(El::T(id));
        id
    }
    fn lp(&mut self) -> usize {
        self.t(K::L_PAREN, "(")
    }
    fn rp(&mut self) -> usize {
        self.t(K::R_PAREN, ")")
    }
    fn kw(&mut self, s: &str) -> usize {
        self.t(K::KEYWORD, s)
    }
    fn cur(&self) -> usize {
        *self.stack.last().unwrap()
    }
    fn pct(&mut self, p: usize) -> bool {
        self.rng.chance(p, 100)
    }

    fn fresh_name(&mut self, space: Space) -> String {
        self.counter += 1;
        let base = match (self.o.share_names, space) {
            (true, _) => "n",
            (_, Space::Func) => "f",
            (_, Space::Type) => "t",
            (_, Space::Global) => "g",
            (_, Space::Memory) => "m",
            (_, Space::Table) => "tb",
            (_, Space::Local) => "l",
            (_, Space::Label) => "b",
        };
        let tail = *self.rng.pick(&NAME_TAIL);
        let mut n = format!("${base}{}{}", self.counter, tail);
        while self.pool.contains(&n) {
            n.push('_');
        }
        self.pool.push(n.clone());
        n
    }
    /// Picks a name for a new definition given the names already used in its own scope.
    fn name_for(&mut self, space: Space, used: &[String], other: &[String]) -> Option<String> {
        if !self.pct(self.o.named) {
            return None;
        }
        if !used.is_empty() && space != Space::Label && self.o.dup > 0 && self.rng.below(1000) < self.o.dup {
            return Some(self.rng.pick(used).clone());
        }
        if space == Space::Label && !used.is_empty() && self.pct(self.o.shadow) {
            return Some(self.rng.pick(used).clone());
        }
        if self.o.share_scopes && matches!(space, Space::Local | Space::Label) && !self.pool.is_empty() && self.pct(40) {
            let c = self.rng.pick(&self.pool).clone();
            if !used.contains(&c) && !other.contains(&c) {
                return Some(c);
            }
        }
        if self.o.share_names && !other.is_empty() && self.pct(35) {
            let c = self.rng.pick(other).clone();
            if !used.contains(&c) {
                return Some(c);
            }
        }
        Some(self.fresh_name(space))
    }
    fn new_def(&mut self, space: Space, idx: u32, name: Option<String>) -> usize {
        let id = self.d.defs.len();
        self.d.defs.push(Def {
            space,
            module: self.module,
            func: self.func,
            idx,
            name,
            loc: usize::MAX,
            node: usize::MAX,
            imported: false,
            is_param: false,
            sig: Sig::default(),
            type_ref: None,
            inline_sig: true,
            ty: None,
            mutable: false,
            parent_label: None,
            num_ok: true,
        });
        id
    }
    fn rand_v(&mut self) -> V {
        if self.pct(80) {
            *self.rng.pick(&[V::I32, V::I64, V::F32, V::F64])
        } else {
            *self.rng.pick(&spec::ALLV)
        }
    }
    fn rand_sig(&mut self) -> Sig {
        let n = if self.rng.chance(1, 12) { self.rng.range(4, 9) } else { *self.rng.pick(&[0, 0, 1, 1, 2, 3]) };
        let params = (0..n).map(|_| (self.rand_v(), None)).collect();
        let results = match self.rng.below(10) {
            0..=3 => vec![],
            9 => (0..if self.rng.chance(1, 6) { self.rng.range(3, 7) } else { 2 }).map(|_| self.rand_v()).collect(),
            _ => vec![self.rand_v()],
        };
        Sig { params, results }
    }
    fn defs_of(&self, space: Space) -> Vec<usize> {
        (0..self.d.defs.len())
            .filter(|&i| self.d.defs[i].space == space && self.d.defs[i].module == self.module && !matches!(space, Space::Local | Space::Label))
            .collect()
    }

    // ---------------------------------------------------------------- module
    fn gen_module(&mut self) {
        let mnode = self.open(K::MODULE);
        self.d.modules.push(mnode);
        self.lp();
        self.kw("module");
        if self.pct(30) {
            let n = self.fresh_name(Space::Func);
            self.t(K::IDENT, n);
        }
        // plan
        let n = self.rng.range(1, self.o.max_fields);
        let mut kinds: Vec<F> = vec![];
        for _ in 0..n {
            let k = match self.rng.below(100) {
                0..=14 => F::Type,
                15..=24 if self.o.imports => *self.rng.pick(&[F::ImpFunc, F::ImpFunc, F::ImpGlobal, F::ImpMem, F::ImpTable]),
                25..=59 => F::Func,
                60..=71 => F::Global,
                72..=75 => F::Mem,
                76..=80 => F::Table,
                81..=88 => F::Export,
                89..=90 => F::Start,
                91..=95 if self.o.elem_data => F::Data,
                96..=99 if self.o.elem_data => F::Elem,
                _ => F::Func,
            };
            kinds.push(k);
        }
        if self.pct(60) && !kinds.contains(&F::Mem) {
            kinds.push(F::Mem);
        }
        // imports (and functions/globals/... with inline imports) come before definitions of any kind
        let mut plans: Vec<Plan> = kinds
            .into_iter()
            .map(|kind| {
                let inline = self.o.imports && matches!(kind, F::Func | F::Global | F::Mem | F::Table) && self.rng.chance(8, 100);
                Plan { kind, def: None, inline_import: inline }
            })
            .collect();
        let is_import = |p: &Plan| matches!(p.kind, F::ImpFunc | F::ImpGlobal | F::ImpMem | F::ImpTable) || p.inline_import;
        let is_def = |p: &Plan| matches!(p.kind, F::Func | F::Global | F::Mem | F::Table) && !p.inline_import;
        if let Some(first_def) = plans.iter().position(is_def) {
            let mut moved: Vec<Plan> = vec![];
            let mut i = first_def;
            while i < plans.len() {
                if is_import(&plans[i]) {
                    moved.push(plans.remove(i));
                } else {
                    i += 1;
                }
            }
            for (k, p) in moved.into_iter().enumerate() {
                plans.insert(first_def + k, p);
            }
        }
        if self.o.tool_idx && self.pct(60) {
            // one kind first, so that some of its members can be referred to by number
            let k = *self.rng.pick(&[F::Func, F::Func, F::Type, F::Global, F::Mem, F::Table]);
            let has_imports = plans.iter().any(is_import);
            if !has_imports || k == F::Type {
                plans.sort_by_key(|p| p.kind != k);
            }
        }
        let mut positions = vec![];
        let mut pos = 0u32;
        for p in &plans {
            positions.push(pos);
            if matches!(p.kind, F::Type | F::ImpFunc | F::ImpGlobal | F::ImpMem | F::ImpTable | F::Func | F::Global | F::Mem | F::Table) {
                pos += 1;
            }
        }
        let mut idx = std::collections::HashMap::new();
        let mut used: std::collections::HashMap<Space, Vec<String>> = Default::default();
        let mut all: Vec<String> = vec![];
        // types first so that signatures can refer to them
        for pass in 0..2 {
            for (pi, p) in plans.iter_mut().enumerate() {
                let space = match p.kind {
                    F::Type => Space::Type,
                    F::ImpFunc | F::Func => Space::Func,
                    F::ImpGlobal | F::Global => Space::Global,
                    F::ImpMem | F::Mem => Space::Memory,
                    F::ImpTable | F::Table => Space::Table,
                    _ => continue,
                };
                if (pass == 0) != (space == Space::Type) {
                    continue;
                }
                let i = idx.entry(space).or_insert(0u32);
                let this = *i;
                *i += 1;
                let u = used.entry(space).or_default().clone();
                let num_ok = !self.o.tool_idx || positions[pi] == this;
                let mut name = self.name_for(space, &u, &all);
                if !num_ok && name.is_none() {
                    name = Some(self.fresh_name(space));
                }
                if let Some(n) = &name {
                    used.entry(space).or_default().push(n.clone());
                    all.push(n.clone());
                }
                let id = self.new_def(space, this, name);
                p.def = Some(id);
                let sig = self.rand_sig();
                let gt = self.rand_v();
                let mt = self.pct(50);
                let inline = p.inline_import;
                let d = &mut self.d.defs[id];
                d.num_ok = num_ok;
                d.imported = matches!(p.kind, F::ImpFunc | F::ImpGlobal | F::ImpMem | F::ImpTable) || inline;
                d.sig = sig;
                match space {
                    Space::Global => {
                        d.ty = Some(gt);
                        d.mutable = mt;
                    }
                    Space::Table => d.ty = Some(if mt { V::Func } else { V::Extern }),
                    _ => {}
                }
            }
        }
        // functions may take their type from a type definition
        let types = self.defs_of(Space::Type);
        for p in &plans {
            if let (F::Func | F::ImpFunc, Some(id)) = (p.kind, p.def) {
                if !types.is_empty() && self.pct(35) {
                    let t = *self.rng.pick(&types);
                    let s = self.d.defs[t].sig.clone();
                    let d = &mut self.d.defs[id];
                    d.sig = s;
                    d.type_ref = Some(t);
                    d.inline_sig = false;
                    if self.rng.chance(40, 100) {
                        self.d.defs[id].inline_sig = true;
                    }
                }
            }
        }
        for p in &plans {
            self.gen_field(p);
        }
        self.rp();
        self.close();
    }
    fn set_loc(&mut self, def: usize, node: usize, kw: usize) {
        let name = self.d.defs[def].name.clone();
        let loc = match name {
            Some(n) => self.t(K::IDENT, n),
            None => kw,
        };
        let d = &mut self.d.defs[def];
        d.loc = loc;
        d.node = node;
    }
    fn val_type(&mut self, ty: V) -> usize {
        self.open(K::VAL_TYPE);
        let k = match ty {
            V::I32 | V::I64 | V::F32 | V::F64 => K::NUM_TYPE,
            V::V128 => K::VEC_TYPE,
            _ => K::REF_TYPE,
        };
        let t = self.t(k, ty.s());
        self.close();
        t
    }
    /// Writes params; returns (param index, name, loc token, node) in order.
    fn params(&mut self, sig: &Sig, named: bool, used: &mut Vec<String>, defs: bool) -> Vec<(V, Option<String>)> {
        let mut out = vec![];
        let mut i = 0;
        while i < sig.params.len() {
            let node = self.open(K::PARAM);
            self.lp();
            self.kw("param");
            let name = if named { let u = used.clone(); self.name_for(Space::Local, &u, &[]) } else { None };
            if let Some(n) = name {
                used.push(n.clone());
                let tok = self.t(K::IDENT, n.clone());
                self.val_type(sig.params[i].0);
                if defs {
                    self.local_def(i as u32, Some(n.clone()), tok, node, true, sig.params[i].0);
                }
                out.push((sig.params[i].0, Some(n)));
                i += 1;
            } else {
                let most = if self.rng.chance(1, 3) { 9 } else { 3 };
                let k = self.rng.range(1, (sig.params.len() - i).min(most));
                for j in i..i + k {
                    let tok = self.val_type(sig.params[j].0);
                    if defs {
                        let vt = self.d.toks[tok].parent;
                        self.local_def(j as u32, None, tok, vt, true, sig.params[j].0);
                    }
                    out.push((sig.params[j].0, None));
                }
                i += k;
            }
            self.rp();
            self.close();
        }
        out
    }
    fn local_def(&mut self, idx: u32, name: Option<String>, loc: usize, node: usize, is_param: bool, ty: V) {
        let id = self.new_def(Space::Local, idx, name);
        let d = &mut self.d.defs[id];
        d.loc = loc;
        d.node = node;
        d.is_param = is_param;
        d.ty = Some(ty);
        self.locals.push(id);
    }
    fn results(&mut self, sig: &Sig) {
        let mut i = 0;
        while i < sig.results.len() {
            self.open(K::RESULT);
            self.lp();
            self.kw("result");
            let k = self.rng.range(1, sig.results.len() - i);
            for j in i..i + k {
                self.val_type(sig.results[j]);
            }
            i += k;
            self.rp();
            self.close();
        }
    }
    fn type_use(&mut self, def: usize, named: bool) {
        let d = self.d.defs[def].clone();
        if d.type_ref.is_none() && d.sig.params.is_empty() && d.sig.results.is_empty() {
            return;
        }
        self.open(K::TYPE_USE);
        if let Some(t) = d.type_ref {
            self.lp();
            self.kw("type");
            self.open(K::INDEX);
            if self.o.undefined > 0 && self.rng.below(1000) < self.o.undefined {
                self.dangling(Space::Type, "type", false);
                self.d.defs[def].type_ref = None;
            } else {
                self.reference_to(Space::Type, t, "type", false);
            }
            self.close();
            self.rp();
        }
        if d.inline_sig {
            let mut used = vec![];
            let ps = self.params(&d.sig, named, &mut used, true);
            self.d.defs[def].sig.params = ps;
            self.results(&d.sig);
        } else {
            // parameters exist (numbered) but have no syntax of their own
        }
        self.close();
    }
    fn name_node(&mut self, kind: K) {
        self.open(kind);
        let s = self.string();
        self.t(K::STRING, s);
        self.close();
    }
    fn import_inline(&mut self) {
        self.open(K::IMPORT);
        self.lp();
        self.kw("import");
        self.name_node(K::MODULE_NAME);
        self.name_node(K::NAME);
        self.rp();
        self.close();
    }
    fn export_inline(&mut self) {
        self.open(K::EXPORT);
        self.lp();
        self.kw("export");
        self.name_node(K::NAME);
        self.rp();
        self.close();
    }
    fn limits(&mut self, mem: bool) {
        self.open(K::LIMITS);
        let a = self.rng.below(10);
        let s = if self.pct(15) { format!("0x{a:x}") } else { a.to_string() };
        self.t(K::UNSIGNED_INT, s);
        if self.pct(50) {
            self.t(K::UNSIGNED_INT, format!("1_0{a}"));
            if mem && self.pct(20) {
                self.t(K::SHARE, "shared");
            }
        }
        self.close();
    }
    fn global_type(&mut self, ty: V, mutable: bool) {
        self.open(K::GLOBAL_TYPE);
        if mutable {
            self.lp();
            self.kw("mut");
            self.val_type(ty);
            self.rp();
        } else {
            self.val_type(ty);
        }
        self.close();
    }
    fn table_type(&mut self, ty: V) {
        self.open(K::TABLE_TYPE);
        self.limits(false);
        self.t(K::REF_TYPE, ty.s());
        self.close();
    }
    fn gen_field(&mut self, p: &Plan) {
        match p.kind {
            F::Type => {
                let id = p.def.unwrap();
                let node = self.open(K::MODULE_FIELD_TYPE);
                self.lp();
                let kw = self.kw("type");
                self.set_loc(id, node, kw);
                self.open(K::FUNC_TYPE);
                self.lp();
                self.kw("func");
                let sig = self.d.defs[id].sig.clone();
                let mut used = vec![];
                let named = self.pct(40);
                let ps = self.params(&sig, named, &mut used, false);
                self.d.defs[id].sig.params = ps;
                self.results(&sig);
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            F::ImpFunc | F::ImpGlobal | F::ImpMem | F::ImpTable => {
                let id = p.def.unwrap();
                self.open(K::MODULE_FIELD_IMPORT);
                self.lp();
                self.kw("import");
                self.name_node(K::MODULE_NAME);
                self.name_node(K::NAME);
                let (k, w) = match p.kind {
                    F::ImpFunc => (K::IMPORT_DESC_TYPE_USE, "func"),
                    F::ImpGlobal => (K::IMPORT_DESC_GLOBAL_TYPE, "global"),
                    F::ImpMem => (K::IMPORT_DESC_MEMORY_TYPE, "memory"),
                    _ => (K::IMPORT_DESC_TABLE_TYPE, "table"),
                };
                let node = self.open(k);
                self.lp();
                let kw = self.kw(w);
                self.set_loc(id, node, kw);
                let d = self.d.defs[id].clone();
                match p.kind {
                    F::ImpFunc => {
                        let n = self.d.defs.len();
                        self.type_use(id, true);
                        // parameters of an imported function are not referable locals
                        self.d.defs.truncate(n);
                        self.locals.clear();
                    }
                    F::ImpGlobal => self.global_type(d.ty.unwrap(), d.mutable),
                    F::ImpMem => {
                        self.open(K::MEMORY_TYPE);
                        self.limits(true);
                        self.close();
                    }
                    _ => self.table_type(d.ty.unwrap()),
                }
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            F::Func => self.gen_func(p),
            F::Global => {
                let id = p.def.unwrap();
                let node = self.open(K::MODULE_FIELD_GLOBAL);
                self.lp();
                let kw = self.kw("global");
                self.set_loc(id, node, kw);
                if p.inline_import {
                    self.import_inline();
                } else if self.pct(25) {
                    self.export_inline();
                }
                let d = self.d.defs[id].clone();
                self.global_type(d.ty.unwrap(), d.mutable);
                if !p.inline_import {
                    self.const_instr(d.ty.unwrap());
                }
                self.rp();
                self.close();
            }
            F::Mem => {
                let id = p.def.unwrap();
                let node = self.open(K::MODULE_FIELD_MEMORY);
                self.lp();
                let kw = self.kw("memory");
                self.set_loc(id, node, kw);
                if p.inline_import {
                    self.import_inline();
                } else if self.pct(25) {
                    self.export_inline();
                }
                if !p.inline_import && self.pct(20) {
                    self.open(K::DATA);
                    self.lp();
                    self.kw("data");
                    for _ in 0..self.rng.below(3) {
                        let s = self.string();
                        self.t(K::STRING, s);
                    }
                    self.rp();
                    self.close();
                } else {
                    self.open(K::MEMORY_TYPE);
                    self.limits(true);
                    self.close();
                }
                self.rp();
                self.close();
            }
            F::Table => {
                let id = p.def.unwrap();
                let node = self.open(K::MODULE_FIELD_TABLE);
                self.lp();
                let kw = self.kw("table");
                self.set_loc(id, node, kw);
                if p.inline_import {
                    self.import_inline();
                } else if self.pct(25) {
                    self.export_inline();
                }
                let ty = self.d.defs[id].ty.unwrap();
                if !p.inline_import && self.pct(30) {
                    self.t(K::REF_TYPE, ty.s());
                    self.open(K::ELEM);
                    self.lp();
                    self.kw("elem");
                    if ty == V::Func && self.pct(60) && (!self.defs_of(Space::Func).is_empty() || self.o.undefined > 0) {
                        for _ in 0..self.rng.range(1, 3) {
                            self.open_index_ref(Space::Func, "elem");
                        }
                    } else {
                        for _ in 0..self.rng.range(1, 2) {
                            self.elem_expr(ty);
                        }
                    }
                    self.rp();
                    self.close();
                } else {
                    self.table_type(ty);
                }
                self.rp();
                self.close();
            }
            F::Export => {
                let (space, kind, w) = *self.rng.pick(&[
                    (Space::Func, K::EXPORT_DESC_FUNC, "func"),
                    (Space::Global, K::EXPORT_DESC_GLOBAL, "global"),
                    (Space::Memory, K::EXPORT_DESC_MEMORY, "memory"),
                    (Space::Table, K::EXPORT_DESC_TABLE, "table"),
                ]);
                if self.defs_of(space).is_empty() && self.o.undefined == 0 {
                    return;
                }
                self.open(K::MODULE_FIELD_EXPORT);
                self.lp();
                self.kw("export");
                self.name_node(K::NAME);
                self.open(kind);
                self.lp();
                self.kw(w);
                self.open_index_ref(space, "export");
                self.rp();
                self.close();
                self.rp();
                self.close();
            }
            F::Start => {
                if self.defs_of(Space::Func).is_empty() && self.o.undefined == 0 {
                    return;
                }
                self.open(K::MODULE_FIELD_START);
                self.lp();
                self.kw("start");
                self.open_index_ref(Space::Func, "start");
                self.rp();
                self.close();
            }
            F::Data => {
                self.open(K::MODULE_FIELD_DATA);
                self.lp();
                self.kw("data");
                if self.pct(40) {
                    let n = self.fresh_name(Space::Memory);
                    self.t(K::IDENT, n);
                }
                if self.pct(60) && (!self.defs_of(Space::Memory).is_empty() || self.o.undefined > 0) {
                    if self.pct(50) {
                        self.open(K::MEM_USE);
                        self.lp();
                        self.kw("memory");
                        self.open_index_ref(Space::Memory, "memory use");
                        self.rp();
                        self.close();
                    }
                    self.offset();
                }
                for _ in 0..self.rng.below(3) {
                    let s = self.string();
                    self.t(K::STRING, s);
                }
                self.rp();
                self.close();
            }
            F::Elem => {
                self.open(K::MODULE_FIELD_ELEM);
                self.lp();
                self.kw("elem");
                if self.pct(40) {
                    let n = self.fresh_name(Space::Table);
                    self.t(K::IDENT, n);
                }
                let funcs = !self.defs_of(Space::Func).is_empty();
                match self.rng.below(3) {
                    0 => {
                        self.kw("declare");
                        self.elem_list(funcs);
                    }
                    1 => self.elem_list(funcs),
                    _ => {
                        if self.pct(50) && (!self.defs_of(Space::Table).is_empty() || self.o.undefined > 0) {
                            self.open(K::TABLE_USE);
                            self.lp();
                            self.kw("table");
                            self.open_index_ref(Space::Table, "table use");
                            self.rp();
                            self.close();
                        }
                        self.offset();
                        self.elem_list(funcs);
                    }
                }
                self.rp();
                self.close();
            }
        }
    }
    fn elem_list(&mut self, funcs: bool) {
        self.open(K::ELEM_LIST);
        if funcs && self.pct(70) {
            self.kw("func");
            for _ in 0..self.rng.below(4) {
                self.open_index_ref(Space::Func, "elem");
            }
        } else {
            let ty = if self.pct(50) { V::Func } else { V::Extern };
            self.t(K::REF_TYPE, ty.s());
            for _ in 0..self.rng.below(3) {
                self.elem_expr(ty);
            }
        }
        self.close();
    }
    fn elem_expr(&mut self, ty: V) {
        self.open(K::ELEM_EXPR);
        if self.pct(50) {
            self.lp();
            self.kw("item");
            self.const_instr(ty);
            self.rp();
        } else {
            self.const_instr(ty);
        }
        self.close();
    }
    fn offset(&mut self) {
        self.open(K::OFFSET);
        if self.pct(50) {
            self.lp();
            self.kw("offset");
            self.const_instr(V::I32);
            self.rp();
        } else {
            self.const_instr(V::I32);
        }
        self.close();
    }
    fn open_index_ref(&mut self, space: Space, site: &str) {
        self.open(K::INDEX);
        self.reference(space, site, false);
        self.close();
    }
    /// A reference to some definition of the space (or, with small probability, dangling).
    fn reference(&mut self, space: Space, site: &str, operand: bool) -> Option<usize> {
        let c = self.defs_of(space);
        if c.is_empty() || (self.o.undefined > 0 && self.rng.below(1000) < self.o.undefined) {
            self.dangling(space, site, operand);
            None
        } else {
            let t = *self.rng.pick(&c);
            self.reference_to(space, t, site, operand);
            Some(t)
        }
    }
    fn dangling(&mut self, space: Space, site: &str, operand: bool) {
        self.counter += 1;
        let by = if self.pct(self.o.numeric) {
            By::Num(1000 + self.counter as u32)
        } else {
            By::Name(format!("$undef{}", self.counter))
        };
        self.push_ref(space, by, site, operand);
    }
    fn reference_to(&mut self, space: Space, def: usize, site: &str, operand: bool) {
        let d = &self.d.defs[def];
        let num = d.idx;
        let num_ok = d.num_ok;
        let by = match d.name.clone() {
            Some(n) if !num_ok || !self.rng.chance(self.o.numeric, 100) => By::Name(n),
            _ => By::Num(num),
        };
        self.push_ref(space, by, site, operand);
    }
    fn push_ref(&mut self, space: Space, by: By, site: &str, operand: bool) {
        let tok = match &by {
            By::Name(n) => self.t(K::IDENT, n.clone()),
            By::Num(n) => {
                let k = if operand { K::INT } else { K::UNSIGNED_INT };
                let text = self.index_text(*n);
                self.t(k, text)
            }
        };
        let labels = self.labels.iter().rev().copied().collect();
        self.d.refs.push(Ref { space, module: self.module, func: self.func, tok, by, labels, targets: vec![], site: site.to_string() });
    }
    /// An index is a number, which can be written in several ways.
    fn index_text(&mut self, n: u32) -> String {
        match self.rng.below(40) {
            0 => format!("0x{n:x}"),
            1 => format!("0x{n:02X}"),
            2 => format!("0{n}"),
            3 => format!("0_{n}"),
            4 if n > 15 => format!("0x{:x}_{:x}", n / 16, n % 16),
            5 if n > 9 => format!("{}_{}", n / 10, n % 10),
            _ => n.to_string(),
        }
    }
    fn string(&mut self) -> String {
        let pool: &[&str] = if self.o.unicode {
            &["a", "B", " ", "\\n", "\\\"", "\\00", "\\u{1F600}", "é", "中", "😀", ";;", "(;", ";)", "(", ")", "$x", "\\\\", "'", "\\t", "%"]
        } else {
            &["a", "B", " ", "\\n", "\\\"", "\\00", "\\u{41}", ";;", "(;", "(", ")", "$x", "\\\\"]
        };
        let n = self.rng.below(6);
        let mut s = String::from("\"");
        for _ in 0..n {
            { let x = *self.rng.pick(pool); s.push_str(x); }
        }
        s.push('"');
        s
    }
    fn int_lit(&mut self) -> String {
        let v = self.rng.below(300);
        if !self.o.fancy_nums {
            return v.to_string();
        }
        match self.rng.below(8) {
            0 => format!("-{v}"),
            1 => format!("+{v}"),
            2 => format!("0x{v:x}"),
            3 => format!("-0x{v:X}"),
            4 => format!("1_0{v}"),
            5 => format!("0xA_{v:x}"),
            _ => v.to_string(),
        }
    }
    fn float_lit(&mut self) -> (K, String) {
        let v = self.rng.below(100);
        if !self.o.fancy_nums {
            return (K::FLOAT, format!("{v}.5"));
        }
        match self.rng.below(14) {
            0 => (K::INT, format!("{v}")),
            1 => (K::FLOAT, format!("{v}.")),
            2 => (K::FLOAT, format!("-{v}.25")),
            3 => (K::FLOAT, format!("{v}e10")),
            4 => (K::FLOAT, format!("{v}.5E-3")),
            5 => (K::FLOAT, format!("0x{v:x}.8p3")),
            6 => (K::FLOAT, "inf".into()),
            7 => (K::FLOAT, "-inf".into()),
            8 => (K::FLOAT, "nan".into()),
            9 => (K::FLOAT, "nan:0x7f_ffff".into()),
            10 => (K::FLOAT, "+nan:0x400000".into()),
            11 => (K::FLOAT, "1_000.000_1".into()),
            12 => (K::FLOAT, format!("0x{v:x}p-4")),
            _ => (K::FLOAT, format!("{v}.75")),
        }
    }
    fn operand_tok(&mut self, k: K, s: impl Into<String>) -> usize {
        self.open(K::OPERAND);
        let t = self.t(k, s);
        self.close();
        t
    }
    /// `(i32.const 1)` and friends: a constant expression, always folded.
    fn const_instr(&mut self, ty: V) {
        self.open(K::PLAIN_INSTR);
        self.lp();
        self.const_body(ty);
        self.rp();
        self.close();
    }
    fn const_body(&mut self, ty: V) {
        match ty {
            V::I32 | V::I64 => {
                self.t(K::INSTR_NAME, format!("{}.const", ty.s()));
                let s = self.int_lit();
                self.operand_tok(K::INT, s);
            }
            V::F32 | V::F64 => {
                self.t(K::INSTR_NAME, format!("{}.const", ty.s()));
                let (k, s) = self.float_lit();
                self.operand_tok(k, s);
            }
            V::V128 => {
                // v128.const is outside the grammar the parser accepts; splat needs an operand
                self.t(K::INSTR_NAME, "i32x4.splat");
                self.open(K::OPERAND);
                self.const_instr(V::I32);
                self.close();
            }
            V::Func | V::Extern => {
                let funcs = self.defs_of(Space::Func);
                if ty == V::Func && !funcs.is_empty() && self.pct(50) {
                    self.t(K::INSTR_NAME, "ref.func");
                    self.open(K::OPERAND);
                    self.reference(Space::Func, "ref.func", true);
                    self.close();
                } else {
                    self.t(K::INSTR_NAME, "ref.null");
                    self.operand_tok(K::HEAP_TYPE, if ty == V::Func { "func" } else { "extern" });
                }
            }
        }
    }

    // ---------------------------------------------------------------- functions
    fn gen_func(&mut self, p: &Plan) {
        let id = p.def.unwrap();
        let node = self.open(K::MODULE_FIELD_FUNC);
        self.lp();
        let kw = self.kw("func");
        self.set_loc(id, node, kw);
        self.locals.clear();
        self.labels.clear();
        self.poly = false;
        if p.inline_import {
            self.import_inline();
            self.func = Some(id);
            self.type_use(id, true);
            self.func = None;
            self.rp();
            self.close();
            return;
        }
        while self.pct(20) {
            self.export_inline();
        }
        self.func = Some(id);
        self.type_use(id, true);
        let d = self.d.defs[id].clone();
        // locals; when the signature comes from a type only, the numbering of the
        // parameters is not written down in the function: keep those functions local-free
        let params_hidden = !d.inline_sig && !d.sig.params.is_empty();
        if !params_hidden {
            let mut used: Vec<String> = self.locals.iter().filter_map(|l| self.d.defs[*l].name.clone()).collect();
            let mut idx = d.sig.params.len() as u32;
            for _ in 0..if self.rng.chance(1, 12) { self.rng.range(4, 12) } else { self.rng.below(4) } {
                let lnode = self.open(K::LOCAL);
                self.lp();
                self.kw("local");
                let u = used.clone();
                if let Some(n) = self.name_for(Space::Local, &u, &[]) {
                    used.push(n.clone());
                    let tok = self.t(K::IDENT, n.clone());
                    let ty = self.rand_v();
                    self.val_type(ty);
                    self.local_def(idx, Some(n), tok, lnode, false, ty);
                    idx += 1;
                } else {
                    for _ in 0..if self.rng.chance(1, 6) { self.rng.range(4, 8) } else { self.rng.range(1, 3) } {
                        let ty = self.rand_v();
                        let tok = self.val_type(ty);
                        let vt = self.d.toks[tok].parent;
                        self.local_def(idx, None, tok, vt, false, ty);
                        idx += 1;
                    }
                }
                self.rp();
                self.close();
            }
        }
        self.results_of_func = d.sig.results.clone();
        let n = self.rng.below(self.o.stmts + 1);
        for _ in 0..n {
            self.stmt(self.o.depth, false);
        }
        let flat = self.o.flat && self.pct(50);
        for r in d.sig.results.clone() {
            if flat {
                self.flat(r, self.o.depth);
            } else {
                self.expr(r, self.o.depth);
            }
        }
        self.func = None;
        self.locals.clear();
        self.labels.clear();
        self.rp();
        self.close();
    }
    fn locals_of(&self, ty: V) -> Vec<usize> {
        self.locals.iter().copied().filter(|l| self.d.defs[*l].ty == Some(ty)).collect()
    }
    fn ref_operand(&mut self, space: Space, def: usize, site: &str) {
        self.open(K::OPERAND);
        if self.o.undefined > 0 && self.rng.below(1000) < self.o.undefined {
            self.dangling(space, site, true);
        } else {
            self.reference_to(space, def, site, true);
        }
        self.close();
    }
    fn label_operand(&mut self, site: &str) {
        self.open(K::OPERAND);
        if self.o.undefined > 0 && self.rng.below(1000) < (self.o.undefined * 4).min(500) {
            self.dangling(Space::Label, site, true);
        } else {
            let n = self.labels.len();
            let levels: Vec<usize> = (0..n).filter(|lv| !self.o.typed || self.d.defs[self.labels[n - 1 - lv]].sig.results.is_empty()).collect();
            let lv = *self.rng.pick(&levels);
            let def = self.labels[n - 1 - lv];
            let name = self.d.defs[def].name.clone();
            // a name shadowed by an inner label cannot be used for the outer one
            let shadowed = |g: &Self, n: &str| g.labels[g.labels.len() - lv..].iter().any(|l| g.d.defs[*l].name.as_deref() == Some(n));
            let by = match name {
                Some(n) if !self.rng.chance(self.o.numeric, 100) && !shadowed(self, &n) => By::Name(n),
                _ => By::Num(lv as u32),
            };
            self.push_ref(Space::Label, by, site, true);
        }
        self.close();
    }
    fn mem_args(&mut self, folded_or_not: bool) {
        let _ = folded_or_not;
        if self.pct(10) {
            return;
        }
        if self.pct(10) {
            self.operand_tok(K::MEM_ARG, "offset=0");
            self.operand_tok(K::MEM_ARG, "align=1");
            return;
        }
        if self.pct(45) {
            let n = self.rng.below(64);
            let s = if self.pct(20) { format!("offset=0x{n:x}") } else { format!("offset={n}") };
            self.operand_tok(K::MEM_ARG, s);
        } else if self.pct(25) {
            let s = format!("align={}", 1 << self.rng.below(3));
            self.operand_tok(K::MEM_ARG, s);
        } else {
            self.operand_tok(K::MEM_ARG, "offset=4");
        }
    }
    /// Chooses how to produce a `ty`: returns a description interpreted by expr/flat.
    fn choose(&mut self, ty: V, d: usize) -> Choice {
        let concrete = std::mem::replace(&mut self.concrete, false);
        loop {
            let c = self.choose_any(ty, d);
            if !(concrete && matches!(c, Choice::Tee(_) | Choice::Select)) {
                return c;
            }
        }
    }
    fn choose_any(&mut self, ty: V, d: usize) -> Choice {
        if d == 0 {
            let ls = self.locals_of(ty);
            if !ls.is_empty() && self.pct(50) {
                return Choice::Local(*self.rng.pick(&ls));
            }
            return Choice::Const;
        }
        match self.rng.below(100) {
            0..=19 => {
                let ls = self.locals_of(ty);
                if ls.is_empty() {
                    Choice::Const
                } else {
                    Choice::Local(*self.rng.pick(&ls))
                }
            }
            20..=27 => {
                let gs: Vec<usize> = self.defs_of(Space::Global).into_iter().filter(|g| self.d.defs[*g].ty == Some(ty)).collect();
                if gs.is_empty() {
                    Choice::Const
                } else {
                    Choice::Global(*self.rng.pick(&gs))
                }
            }
            28..=62 => {
                let c: Vec<usize> = (0..spec::TABLE.len())
                    .filter(|&i| {
                        let x = &spec::TABLE[i];
                        x.results == [ty]
                            && !x.imms.iter().any(|m| matches!(m, Imm::Lit(_) | Imm::V128 | Imm::Shuffle))
                            && (self.o.simd || !(x.params.contains(&V::V128) || ty == V::V128))
                    })
                    .collect();
                if c.is_empty() {
                    Choice::Const
                } else {
                    Choice::Op(*self.rng.pick(&c))
                }
            }
            63..=74 if self.o.calls => {
                let fs: Vec<usize> = self.defs_of(Space::Func).into_iter().filter(|f| self.d.defs[*f].sig.results == [ty]).collect();
                if fs.is_empty() {
                    Choice::Const
                } else {
                    Choice::Call(*self.rng.pick(&fs))
                }
            }
            75..=79 => {
                let ls = self.locals_of(ty);
                if ls.is_empty() {
                    Choice::Const
                } else {
                    Choice::Tee(*self.rng.pick(&ls))
                }
            }
            80..=84 if matches!(ty, V::I32 | V::I64 | V::F32 | V::F64) => Choice::Select,
            85..=93 if self.o.blocks => Choice::Block(self.rng.below(3)),
            _ => Choice::Const,
        }
    }
    /// A folded instruction leaving one value of type `ty`.
    pub fn expr(&mut self, ty: V, d: usize) {
        let c = self.choose(ty, d);
        if let Choice::Block(k) = c {
            self.block(k, true, &[ty], d);
            return;
        }
        self.open(K::PLAIN_INSTR);
        self.lp();
        match c {
            Choice::Const => self.const_body(ty),
            Choice::Local(l) => {
                self.t(K::INSTR_NAME, "local.get");
                self.ref_operand(Space::Local, l, "local.get");
            }
            Choice::Global(l) => {
                self.t(K::INSTR_NAME, "global.get");
                self.ref_operand(Space::Global, l, "global.get");
            }
            Choice::Tee(l) => {
                self.t(K::INSTR_NAME, "local.tee");
                self.ref_operand(Space::Local, l, "local.tee");
                self.args("local.tee", &[ty], d - 1);
            }
            Choice::Op(i) => self.op_folded(i, d),
            Choice::Call(f) => self.call_folded(f, d),
            Choice::Select => {
                self.t(K::INSTR_NAME, "select");
                self.args("select", &[ty, ty, V::I32], d - 1);
            }
            Choice::Block(_) => unreachable!(),
        }
        self.rp();
        self.close();
    }
    fn arg(&mut self, ty: V, d: usize) {
        self.open(K::OPERAND);
        self.expr(ty, d);
        self.close();
    }
    fn imms(&mut self, i: usize) {
        for m in spec::TABLE[i].imms.clone() {
            match m {
                Imm::Mem => self.mem_args(true),
                Imm::Lane => {
                    self.operand_tok(K::INT, "1");
                }
                _ => unreachable!(),
            }
        }
    }
    fn op_folded(&mut self, i: usize, d: usize) {
        let ins = &spec::TABLE[i];
        self.t(K::INSTR_NAME, ins.name.clone());
        self.imms(i);
        let params = ins.params.clone();
        if params.len() > 1 && self.o.poly && self.pct(20) {
            let fs: Vec<usize> = self.defs_of(Space::Func).into_iter().filter(|f| self.d.defs[*f].sig.results == params).collect();
            if !fs.is_empty() {
                let f = *self.rng.pick(&fs);
                self.open(K::OPERAND);
                self.open(K::PLAIN_INSTR);
                self.lp();
                self.call_folded(f, d);
                self.rp();
                self.close();
                self.close();
                return;
            }
        }
        self.args(&ins.name, &params, d - 1);
    }
    fn call_folded(&mut self, f: usize, d: usize) {
        self.t(K::INSTR_NAME, "call");
        self.ref_operand(Space::Func, f, "call");
        let params: Vec<V> = self.d.defs[f].sig.params.iter().map(|p| p.0).collect();
        self.args("call", &params, d.saturating_sub(1));
    }
    fn fuse_blown(&mut self, name: &str) -> bool {
        if matches!(name, "br" | "br_if" | "br_table" | "call_indirect" | "return_call" | "return" | "unreachable") {
            return false;
        }
        match self.fuse {
            Some(0) => {
                self.fuse = None;
                true
            }
            Some(n) => {
                self.fuse = Some(n - 1);
                false
            }
            None => false,
        }
    }
    /// Whether the tool knows the type of an operand.
    fn fixed(name: &str, params: &[V], i: usize) -> bool {
        let num = !matches!(params[i], V::Func | V::Extern);
        num && match name {
            "drop" | "local.set" | "local.tee" | "global.set" => false,
            "select" => i == 2,
            _ => true,
        }
    }
    fn other_type(&mut self, ty: V) -> V {
        let c: Vec<V> = [V::I32, V::I64, V::F32, V::F64, V::V128].into_iter().filter(|t| *t != ty && (self.o.simd || *t != V::V128)).collect();
        *self.rng.pick(&c)
    }
    fn plant(&mut self, kind: &'static str, node: usize, message: String, loose: Option<usize>) {
        self.d.planted.push(Planted { kind, node, message, loose });
    }
    fn count_message(expected: usize, found: usize) -> String {
        format!("expected {expected} {}, found {found}", if expected == 1 { "operand" } else { "operands" })
    }
    /// The operands of a folded instruction, perhaps with a mistake.
    fn args(&mut self, name: &str, params: &[V], d: usize) {
        let node = *self.stack.last().unwrap();
        let imms = self.d.nodes[node].ch.iter().filter(|c| matches!(c, El::N(n) if self.d.nodes[*n].kind == K::OPERAND)).count();
        let n = params.len();
        let mut wrong = n;
        let mut take = n;
        let mut extra = false;
        if self.fuse_blown(name) {
            let fixed: Vec<usize> = (0..n).filter(|i| Self::fixed(name, params, *i)).collect();
            match self.rng.below(5) {
                0 | 1 | 2 if !fixed.is_empty() => wrong = *self.rng.pick(&fixed),
                3 if n > 0 => take = n - 1,
                _ => extra = true,
            }
        }
        for (i, p) in params[..take].iter().enumerate() {
            if i == wrong {
                let ty = self.other_type(*p);
                let o = self.open(K::OPERAND);
                self.concrete = true;
                self.expr(ty, d);
                self.close();
                self.plant("wrong", o, format!("expected type `{}`, found `{}`", p.s(), ty.s()), None);
            } else {
                self.arg(*p, d);
            }
        }
        if extra {
            let ty = self.rand_num();
            self.arg(ty, 0);
            self.plant("extra", node, Self::count_message(imms + n, imms + n + 1), None);
        }
        if take < n {
            self.plant("missing", node, Self::count_message(imms + n, imms + n - 1), None);
        }
    }
    fn rand_num(&mut self) -> V {
        *self.rng.pick(&[V::I32, V::I64, V::F32, V::F64])
    }
    /// The operands of an unfolded instruction, perhaps with a mistake.
    fn flat_args(&mut self, name: &str, params: &[V], d: usize, bottom: bool) {
        let top = self.labels.is_empty() && self.func.is_some();
        let mut wrong = usize::MAX;
        let mut skip = 0;
        if top && !params.is_empty() && self.fuse_blown(name) {
            let fixed: Vec<usize> = (0..params.len()).filter(|i| Self::fixed(name, params, *i)).collect();
            if bottom && !self.poly && self.pct(30) {
                skip = 1;
            } else if !fixed.is_empty() {
                wrong = *self.rng.pick(&fixed);
            }
        }
        for (i, p) in params.iter().enumerate().skip(skip) {
            if i == wrong {
                let ty = self.other_type(*p);
                self.concrete = true;
                self.flat(ty, d);
                let parent = *self.stack.last().unwrap();
                let Some(El::N(node)) = self.d.nodes[parent].ch.last().cloned() else { unreachable!() };
                self.plant("flat-wrong", node, format!("expected type `{}`, found `{}`", p.s(), ty.s()), None);
            } else {
                self.flat(*p, d);
            }
        }
        self.underflow = if skip > 0 { Some(params.len()) } else { None };
    }
    /// To be called when the instruction of `flat_args` has been opened.
    fn flat_opened(&mut self) {
        if let Some(n) = self.underflow.take() {
            let node = *self.stack.last().unwrap();
            let func = self.d.defs[self.func.unwrap()].node;
            self.plant("flat-missing", node, Self::count_message(n, n - 1), Some(func));
        }
    }
    /// `unreachable` or the like, followed by an instruction some of whose operands are left out.
    fn poly_stmt(&mut self, folded: bool, d: usize) {
        let i = loop {
            let i = self.rng.below(spec::TABLE.len());
            let x = &spec::TABLE[i];
            if !x.imms.iter().any(|m| matches!(m, Imm::Lit(_) | Imm::V128 | Imm::Shuffle)) && x.results.len() == 1 && (self.o.simd || !(x.params.contains(&V::V128) || x.results.contains(&V::V128))) {
                break i;
            }
        };
        let params = spec::TABLE[i].params.clone();
        let d = d.min(1);
        if folded {
            // (drop (op arg (unreachable) arg))
            self.name_instr(true, "drop");
            self.open(K::OPERAND);
            self.name_instr(true, &spec::TABLE[i].name.clone());
            self.imms(i);
            let wrap = match params.last() {
                Some(V::I32) => Some("i32.eqz"),
                Some(V::I64) => Some("i64.extend_i32_u"),
                Some(V::F32) => Some("f32.neg"),
                Some(V::F64) => Some("f64.neg"),
                _ => None,
            };
            let wrap = if self.pct(50) { wrap } else { None };
            // with a wrapped branch, the wrapper leaves a value of its own, the last one
            let at = self.rng.below(params.len() + 1 - wrap.is_some() as usize);
            for p in params[..at].iter() {
                let p = if wrap.is_none() && self.pct(30) { self.rand_num() } else { *p };
                self.arg(p, d);
            }
            let wraps = wrap.is_some() as usize;
            for _ in 0..wraps {
                self.open(K::OPERAND);
                self.name_instr(true, wrap.unwrap());
            }
            self.open(K::OPERAND);
            self.uncond(true);
            self.close();
            for _ in 0..wraps {
                self.rp();
                self.close();
                self.close();
            }
            let from = self.rng.range(at.min(params.len()), params.len());
            if wraps == 0 {
                for p in params[from..].iter() {
                    self.arg(*p, d);
                }
            }
            self.end_instr(true);
            self.close();
            self.end_instr(true);
        } else {
            let fold = self.pct(50);
            self.uncond(fold);
            let from = self.rng.range(0, params.len());
            for p in params[from..].iter() {
                self.flat(*p, d);
            }
            self.name_instr(false, &spec::TABLE[i].name.clone());
            self.imms(i);
            self.end_instr(false);
            self.name_instr(false, "drop");
            self.end_instr(false);
        }
    }
    fn uncond(&mut self, folded: bool) {
        if self.labels.is_empty() {
            self.poly = true;
        }
        let r = self.results_of_func.clone();
        match self.rng.below(3) {
            0 if r.is_empty() => self.with_args(folded, "return", |_| (), &[], 0),
            1 if self.o.branches && self.labels.iter().any(|l| self.d.defs[*l].sig.results.is_empty()) => {
                self.with_args(folded, "br", |g| g.label_operand("br"), &[], 0)
            }
            _ => self.with_args(folded, "unreachable", |_| (), &[], 0),
        }
    }
    /// An unfolded block that takes parameters.
    fn param_block(&mut self, d: usize) {
        let numeric = |v: &V| !matches!(v, V::Func | V::Extern);
        let types: Vec<usize> = self
            .defs_of(Space::Type)
            .into_iter()
            .filter(|t| {
                let s = &self.d.defs[*t].sig;
                s.params.iter().all(|p| numeric(&p.0)) && s.results.iter().all(numeric) && s.params.len() + s.results.len() < 8
            })
            .collect();
        let (params, results, of) = if !types.is_empty() && self.pct(60) {
            let t = *self.rng.pick(&types);
            let s = &self.d.defs[t].sig;
            (s.params.iter().map(|p| p.0).collect::<Vec<V>>(), s.results.clone(), Some(t))
        } else {
            let n = *self.rng.pick(&[1, 1, 2, 3]);
            let m = self.rng.below(3);
            ((0..n).map(|_| self.rand_num()).collect(), (0..m).map(|_| self.rand_num()).collect(), None)
        };
        let kind = self.rng.below(2);
        let (k, w) = [(K::BLOCK_BLOCK, "block"), (K::BLOCK_LOOP, "loop")][kind];
        self.flat_args(w, &params, d.saturating_sub(1), false);
        let node = self.open(k);
        let kw = self.kw(w);
        let label = self.push_label(node, kw);
        self.d.defs[label].sig.results = if kind == 1 { params.clone() } else { results.clone() };
        self.sig_use(of, &params, &results);
        self.labels.push(label);
        for _ in &params {
            self.name_instr(false, "drop");
            self.end_instr(false);
        }
        for r in &results {
            self.flat(*r, d.saturating_sub(1));
        }
        self.labels.pop();
        self.kw("end");
        self.close();
        for _ in &results {
            self.name_instr(false, "drop");
            self.end_instr(false);
        }
    }
    /// The type of a block: by reference, in full, or both.
    fn sig_use(&mut self, of: Option<usize>, params: &[V], results: &[V]) {
        if of.is_none() && params.is_empty() && results.is_empty() {
            return;
        }
        self.open(K::BLOCK_TYPE);
        let several = of.is_none() && params.is_empty() && self.rng.chance(1, 2) && results.len() > 1;
        let use_node = of.is_some() || !params.is_empty() || several;
        if use_node {
            self.open(K::TYPE_USE);
        }
        let mut full = true;
        if let Some(t) = of {
            self.lp();
            self.kw("type");
            self.open(K::INDEX);
            self.reference_to(Space::Type, t, "type", false);
            self.close();
            self.rp();
            full = self.pct(30);
        }
        if full {
            for (key, kind, vs) in [("param", K::PARAM, params), ("result", K::RESULT, results)] {
                let mut i = 0;
                while i < vs.len() {
                    let n = if key == "result" && !use_node {
                        vs.len()
                    } else if several && i == 0 {
                        1
                    } else {
                        self.rng.range(1, vs.len() - i)
                    };
                    self.open(kind);
                    self.lp();
                    self.kw(key);
                    for v in &vs[i..i + n] {
                        self.val_type(*v);
                    }
                    self.rp();
                    self.close();
                    i += n;
                }
            }
        }
        if use_node {
            self.close();
        }
        self.close();
    }
    /// Unfolded code leaving one value of type `ty`.
    pub fn flat(&mut self, ty: V, d: usize) {
        if self.pct(15) {
            return self.expr(ty, d);
        }
        let c = self.choose(ty, d);
        match c {
            Choice::Const => {
                if matches!(ty, V::V128) {
                    self.flat(V::I32, 0);
                    self.open(K::PLAIN_INSTR);
                    self.t(K::INSTR_NAME, "i32x4.splat");
                } else {
                    self.open(K::PLAIN_INSTR);
                    self.const_body(ty);
                }
                self.close();
            }
            Choice::Local(l) => {
                self.open(K::PLAIN_INSTR);
                self.t(K::INSTR_NAME, "local.get");
                self.ref_operand(Space::Local, l, "local.get");
                self.close();
            }
            Choice::Global(l) => {
                self.open(K::PLAIN_INSTR);
                self.t(K::INSTR_NAME, "global.get");
                self.ref_operand(Space::Global, l, "global.get");
                self.close();
            }
            Choice::Tee(l) => {
                self.flat_args("local.tee", &[ty], d - 1, false);
                self.open(K::PLAIN_INSTR);
                self.t(K::INSTR_NAME, "local.tee");
                self.ref_operand(Space::Local, l, "local.tee");
                self.close();
            }
            Choice::Op(i) => {
                self.flat_args(&spec::TABLE[i].name, &spec::TABLE[i].params, d - 1, false);
                self.open(K::PLAIN_INSTR);
                self.t(K::INSTR_NAME, spec::TABLE[i].name.clone());
                self.imms(i);
                self.close();
            }
            Choice::Call(f) => {
                let ps: Vec<V> = self.d.defs[f].sig.params.iter().map(|p| p.0).collect();
                self.flat_args("call", &ps, d - 1, false);
                self.open(K::PLAIN_INSTR);
                self.t(K::INSTR_NAME, "call");
                self.ref_operand(Space::Func, f, "call");
                self.close();
            }
            Choice::Select => {
                self.flat_args("select", &[ty, ty, V::I32], d - 1, false);
                self.open(K::PLAIN_INSTR);
                self.t(K::INSTR_NAME, "select");
                self.close();
            }
            Choice::Block(k) => {
                if k == 2 {
                    self.flat(V::I32, d - 1);
                }
                self.block(k, false, &[ty], d);
            }
        }
    }
    fn block_type(&mut self, results: &[V]) {
        let types: Vec<usize> = self.defs_of(Space::Type).into_iter().filter(|t| self.d.defs[*t].sig.params.is_empty() && self.d.defs[*t].sig.results == results).collect();
        let of = if !types.is_empty() && self.pct(40) { Some(*self.rng.pick(&types)) } else { None };
        self.sig_use(of, &[], results);
    }
    fn push_label(&mut self, node: usize, kw: usize) -> usize {
        let used: Vec<String> = self.labels.iter().filter_map(|l| self.d.defs[*l].name.clone()).collect();
        let other: Vec<String> = self.d.defs.iter().filter(|d| d.space == Space::Label && d.func == self.func && d.module == self.module).filter_map(|d| d.name.clone()).collect();
        let name = self.name_for(Space::Label, &used, &other);
        let id = self.new_def(Space::Label, 0, name);
        self.d.defs[id].parent_label = self.labels.last().copied();
        self.set_loc(id, node, kw);
        id
    }
    fn body(&mut self, results: &[V], d: usize, flat_ok: bool) {
        for _ in 0..self.rng.below(3) {
            self.stmt(d.saturating_sub(1), !flat_ok);
        }
        let flat = flat_ok && self.o.flat && self.pct(60);
        for r in results {
            if flat {
                self.flat(*r, d.saturating_sub(1));
            } else {
                self.expr(*r, d.saturating_sub(1));
            }
        }
    }
    /// kind: 0 block, 1 loop, 2 if.
    fn block(&mut self, kind: usize, folded: bool, results: &[V], d: usize) {
        let (k, w) = [(K::BLOCK_BLOCK, "block"), (K::BLOCK_LOOP, "loop"), (K::BLOCK_IF, "if")][kind];
        let node = self.open(k);
        if folded {
            self.lp();
        }
        let kw = self.kw(w);
        let label = self.push_label(node, kw);
        if kind != 1 {
            self.d.defs[label].sig.results = results.to_vec();
        }
        self.block_type(results);
        let name = self.d.defs[label].name.clone();
        if kind == 2 {
            if folded {
                // the condition is outside the label's scope; only branch-free conditions are generated
                let br = std::mem::replace(&mut self.o.branches, false);
                let bl = std::mem::replace(&mut self.o.blocks, false);
                self.expr(V::I32, d.saturating_sub(1));
                self.o.branches = br;
                self.o.blocks = bl;
                self.labels.push(label);
                self.open(K::BLOCK_IF_THEN);
                self.lp();
                self.kw("then");
                self.body(results, d, true);
                self.rp();
                self.close();
                if !results.is_empty() || self.pct(40) {
                    self.open(K::BLOCK_IF_ELSE);
                    self.lp();
                    self.kw("else");
                    self.body(results, d, true);
                    self.rp();
                    self.close();
                }
            } else {
                self.labels.push(label);
                self.open(K::BLOCK_IF_THEN);
                self.body(results, d, true);
                self.close();
                if !results.is_empty() || self.pct(40) {
                    self.open(K::BLOCK_IF_ELSE);
                    self.kw("else");
                    self.body(results, d, true);
                    self.close();
                }
            }
        } else {
            self.labels.push(label);
            self.body(results, d, true);
        }
        self.labels.pop();
        if folded {
            self.rp();
        } else {
            self.kw("end");
            let _ = name;
        }
        self.close();
    }
    fn name_instr(&mut self, folded: bool, name: &str) {
        self.open(K::PLAIN_INSTR);
        if folded {
            self.lp();
        }
        self.t(K::INSTR_NAME, name);
    }
    fn end_instr(&mut self, folded: bool) {
        if folded {
            self.rp();
        }
        self.close();
    }
    /// Supplies operands either before (flat) or inside (folded) the instruction.
    fn with_args(&mut self, folded: bool, name: &str, imm: impl Fn(&mut Self), args: &[V], d: usize) {
        if !folded {
            self.flat_args(name, args, d.saturating_sub(1), true);
        }
        self.name_instr(folded, name);
        if !folded {
            self.flat_opened();
        }
        imm(self);
        if folded {
            self.args(name, args, d.saturating_sub(1));
        }
        self.end_instr(folded);
    }
    /// An instruction with one result, which is dropped.
    fn drop_of(&mut self, folded: bool, name: &str, imm: impl Fn(&mut Self), args: &[V], d: usize) {
        if folded {
            self.name_instr(true, "drop");
            self.open(K::OPERAND);
            self.with_args(true, name, imm, args, d);
            self.close();
            self.end_instr(true);
        } else {
            self.with_args(false, name, imm, args, d);
            self.name_instr(false, "drop");
            self.end_instr(false);
        }
    }
    /// An instruction (sequence) that leaves the stack as it was.
    pub fn stmt(&mut self, d: usize, folded_only: bool) {
        let folded = folded_only || !self.o.flat || self.pct(50);
        if self.o.poly && self.pct(6) {
            return self.poly_stmt(folded, d);
        }
        if self.o.poly && !folded && d > 0 && self.pct(6) {
            return self.param_block(d);
        }
        if self.o.poly && !folded && self.pct(5) {
            let fs: Vec<usize> = self.defs_of(Space::Func).into_iter().filter(|f| self.d.defs[*f].sig.results.len() > 1).collect();
            if !fs.is_empty() {
                let f = *self.rng.pick(&fs);
                let ps: Vec<V> = self.d.defs[f].sig.params.iter().map(|p| p.0).collect();
                self.with_args(false, "call", |g| g.ref_operand(Space::Func, f, "call"), &ps, d);
                for _ in 0..self.d.defs[f].sig.results.len() {
                    self.name_instr(false, "drop");
                    self.end_instr(false);
                }
                return;
            }
        }
        if self.o.even && self.pct(60) {
            let i = self.rng.below(spec::TABLE.len());
            let x = &spec::TABLE[i];
            if !x.imms.iter().any(|m| matches!(m, Imm::Lit(_) | Imm::V128 | Imm::Shuffle)) && x.results.len() <= 1 && (self.o.simd || !(x.params.contains(&V::V128) || x.results.contains(&V::V128))) {
                let (name, ps) = (x.name.clone(), x.params.clone());
                return match x.results.is_empty() {
                    true => self.with_args(folded, &name, |g| g.imms(i), &ps, d),
                    false => self.drop_of(folded, &name, |g| g.imms(i), &ps, d),
                };
            }
        }
        match self.rng.below(100) {
            0..=14 => {
                let ty = self.rand_v();
                self.with_args(folded, "drop", |_| (), &[ty], d);
            }
            15..=34 => {
                if self.locals.is_empty() {
                    return self.with_args(folded, "nop", |_| (), &[], d);
                }
                let l = *self.rng.pick(&self.locals.clone());
                let ty = self.d.defs[l].ty.unwrap();
                self.with_args(folded, "local.set", |g| g.ref_operand(Space::Local, l, "local.set"), &[ty], d);
            }
            35..=42 => {
                let gs: Vec<usize> = self.defs_of(Space::Global).into_iter().filter(|g| self.d.defs[*g].mutable).collect();
                if gs.is_empty() {
                    return self.with_args(folded, "nop", |_| (), &[], d);
                }
                let l = *self.rng.pick(&gs);
                let ty = self.d.defs[l].ty.unwrap();
                self.with_args(folded, "global.set", |g| g.ref_operand(Space::Global, l, "global.set"), &[ty], d);
            }
            43..=56 if self.o.calls => {
                let fs: Vec<usize> = self.defs_of(Space::Func).into_iter().filter(|f| self.d.defs[*f].sig.results.is_empty()).collect();
                if fs.is_empty() {
                    return self.with_args(folded, "nop", |_| (), &[], d);
                }
                let f = *self.rng.pick(&fs);
                let ps: Vec<V> = self.d.defs[f].sig.params.iter().map(|p| p.0).collect();
                self.with_args(folded, "call", |g| g.ref_operand(Space::Func, f, "call"), &ps, d);
            }
            57..=63 => {
                let c: Vec<usize> = (0..spec::TABLE.len())
                    .filter(|&i| spec::TABLE[i].results.is_empty() && (self.o.simd || !spec::TABLE[i].params.contains(&V::V128)))
                    .collect();
                let i = *self.rng.pick(&c);
                let ps = spec::TABLE[i].params.clone();
                self.with_args(folded, &spec::TABLE[i].name.clone(), |g| g.imms(i), &ps, d);
            }
            64..=77 if self.o.blocks && d > 0 => {
                let k = self.rng.below(3);
                if k == 2 && !folded {
                    self.flat(V::I32, d.saturating_sub(1));
                }
                self.block(k, folded, &[], d);
            }
            78..=90 if self.o.branches && self.labels.iter().any(|l| !self.o.typed || self.d.defs[*l].sig.results.is_empty()) => match self.rng.below(3) {
                0 => self.with_args(folded, "br_if", |g| g.label_operand("br_if"), &[V::I32], d),
                1 => {
                    let n = self.rng.range(1, 3);
                    self.with_args(
                        folded,
                        "br_table",
                        |g| {
                            for _ in 0..n {
                                g.label_operand("br_table");
                            }
                        },
                        &[V::I32],
                        d,
                    )
                }
                _ => self.with_args(folded, "br", |g| g.label_operand("br"), &[], d),
            },
            91..=94 => {
                let ts = self.defs_of(Space::Table);
                if ts.is_empty() {
                    return self.with_args(folded, "nop", |_| (), &[], d);
                }
                let t = *self.rng.pick(&ts);
                let ty = self.d.defs[t].ty.unwrap();
                let omit = self.d.defs[t].idx == 0 && self.pct(30);
                let tr = |g: &mut Self| {
                    if !omit {
                        g.ref_operand(Space::Table, t, "table")
                    }
                };
                match self.rng.below(if self.o.calls_indirect { 8 } else { 6 }) {
                    0 => self.with_args(folded, "table.set", tr, &[V::I32, ty], d),
                    1 => self.with_args(folded, "table.fill", tr, &[V::I32, ty, V::I32], d),
                    2 => self.drop_of(folded, "table.get", tr, &[V::I32], d),
                    3 => self.drop_of(folded, "table.size", tr, &[], d),
                    4 => self.drop_of(folded, "table.grow", tr, &[ty, V::I32], d),
                    5 => {
                        let same: Vec<usize> = ts.iter().copied().filter(|x| self.d.defs[*x].ty == Some(ty)).collect();
                        let t2 = *self.rng.pick(&same);
                        self.with_args(
                            folded,
                            "table.copy",
                            |g| {
                                g.ref_operand(Space::Table, t, "table.copy");
                                g.ref_operand(Space::Table, t2, "table.copy");
                            },
                            &[V::I32, V::I32, V::I32],
                            d,
                        )
                    }
                    6 => {
                        let fs = self.defs_of(Space::Func);
                        if fs.is_empty() {
                            return self.with_args(folded, "nop", |_| (), &[], d);
                        }
                        let f = *self.rng.pick(&fs);
                        let ps: Vec<V> = self.d.defs[f].sig.params.iter().map(|p| p.0).collect();
                        self.with_args(folded, "return_call", |g| g.ref_operand(Space::Func, f, "return_call"), &ps, d);
                        if self.labels.is_empty() {
                            self.poly = true;
                        }
                    }
                    _ => self.with_args(
                        folded,
                        "table.init",
                        |g| {
                            g.ref_operand(Space::Table, t, "table.init");
                            g.operand_tok(K::IDENT, "$segment");
                        },
                        &[V::I32, V::I32, V::I32],
                        d,
                    ),
                }
            }
            95..=97 if self.o.calls_indirect && !self.defs_of(Space::Type).is_empty() && !self.defs_of(Space::Table).is_empty() => {
                let types: Vec<usize> = self.defs_of(Space::Type).into_iter().filter(|t| self.d.defs[*t].sig.results.is_empty()).collect();
                let Some(&ty) = types.first() else { return self.with_args(folded, "nop", |_| (), &[], d) };
                let tables = self.defs_of(Space::Table);
                let tb = *self.rng.pick(&tables);
                let explicit = self.d.defs[tb].idx > 0 || self.pct(70);
                let mut ps: Vec<V> = self.d.defs[ty].sig.params.iter().map(|p| p.0).collect();
                ps.push(V::I32);
                // (the tool doesn't know its type: it can't tell what is missing after it)
                self.poly = true;
                self.with_args(
                    folded,
                    "call_indirect",
                    |g| {
                        if explicit {
                            g.ref_operand(Space::Table, tb, "call_indirect");
                        }
                        g.open(K::OPERAND);
                        g.open(K::TYPE_USE);
                        g.lp();
                        g.kw("type");
                        g.open(K::INDEX);
                        g.reference_to(Space::Type, ty, "call_indirect type", false);
                        g.close();
                        g.rp();
                        g.close();
                        g.close();
                    },
                    &ps,
                    d,
                )
            }
            95..=97 if self.o.wild => {
                let names = ["foo", "custom.op", "x", "struct.new", "atomic.fence"];
                let n = *self.rng.pick(&names);
                let k = self.rng.below(3);
                self.with_args(
                    true,
                    n,
                    |g| {
                        for _ in 0..k {
                            match g.rng.below(4) {
                                0 => {
                                    let s = g.string();
                                    g.operand_tok(K::STRING, s);
                                }
                                1 => {
                                    g.operand_tok(K::IDENT, "$wild");
                                }
                                2 => {
                                    let s = g.int_lit();
                                    g.operand_tok(K::INT, s);
                                }
                                _ => {
                                    let (k, s) = g.float_lit();
                                    g.operand_tok(k, s);
                                }
                            }
                        }
                    },
                    &[],
                    d,
                )
            }
            _ => self.with_args(folded, "nop", |_| (), &[], d),
        }
    }

}
/// Fills in the targets of every reference by the binding rules of the text format.
/// Indices that denote nothing become ones that are just out of bounds, mostly.
fn near_misses(d: &mut Doc, rng: &mut Rng) {
    for i in 0..d.refs.len() {
        let r = &d.refs[i];
        if matches!(&r.by, By::Name(n) if n.starts_with("$undef")) && rng.chance(1, 2) {
            // a name that something else has, or nearly
            let mut c: Vec<&str> = d.defs.iter().filter(|x| r.space != Space::Label || x.space == Space::Label && x.module == r.module && x.func == r.func || rng.chance(1, 4)).filter_map(|x| x.name.as_deref()).collect();
            if c.is_empty() {
                continue;
            }
            let mut name = c.swap_remove(rng.below(c.len())).to_string();
            if rng.chance(1, 4) {
                name.push_str(*rng.pick(&["'", "0", ".x"]));
            } else if rng.chance(1, 4) && name.len() > 2 {
                name.pop();
            }
            let t = r.tok;
            if resolve(&d.defs, &Ref { by: By::Name(name.clone()), ..r.clone() }).is_empty() {
                d.refs[i].by = By::Name(name.clone());
                d.toks[t].text = name;
            }
            continue;
        }
        if !matches!(r.by, By::Num(n) if n >= 1000) || rng.chance(1, 4) {
            continue;
        }
        // (level  is the function itself)
        let end = match r.space {
            // (or one of the levels that aren't there)
            Space::Label => r.labels.len() + 1,
            Space::Local => d.defs.iter().filter(|x| x.space == Space::Local && x.module == r.module && x.func == r.func).count(),
            _ => d.defs.iter().filter(|x| !matches!(x.space, Space::Local | Space::Label) && x.module == r.module).count(),
        };
        let n = end as u32 + rng.below(3) as u32;
        let t = r.tok;
        d.refs[i].by = By::Num(n);
        d.toks[t].text = n.to_string();
    }
}
pub fn resolve_doc(d: &mut Doc) {
    for i in 0..d.refs.len() {
        d.refs[i].targets = resolve(&d.defs, &d.refs[i]);
    }
}
fn resolve(defs: &[Def], r: &Ref) -> Vec<usize> {
    match r.space {
        Space::Label => match &r.by {
            By::Num(n) => r.labels.get(*n as usize).copied().into_iter().collect(),
            By::Name(n) => r.labels.iter().copied().find(|l| defs[*l].name.as_deref() == Some(n)).into_iter().collect(),
        },
        s => (0..defs.len())
            .filter(|&i| {
                let d = &defs[i];
                d.space == s
                    && d.module == r.module
                    && (s != Space::Local || d.func == r.func)
                    && match &r.by {
                        By::Num(n) => d.idx == *n,
                        By::Name(n) => d.name.as_ref() == Some(n),
                    }
            })
            .collect(),
    }
}
enum Choice {
    Const,
    Local(usize),
    Global(usize),
    Tee(usize),
    Op(usize),
    Call(usize),
    Select,
    Block(usize),
}

// -------------------------------------------------------------------- layout
#[derive(Clone, Debug)]
pub struct Layout {
    /// 0 compact, 1 one space, 2 pretty-ish, 3 chaotic
    pub style: usize,
    /// per-mille chance of a comment between two tokens
    pub comments: usize,
    pub unicode: bool,
    pub crlf: bool,
}
pub struct Rendered {
    pub text: String,
    pub starts: Vec<usize>,
}
impl Rendered {
    pub fn range(&self, d: &Doc, tok: usize) -> (usize, usize) {
        (self.starts[tok], self.starts[tok] + d.toks[tok].text.len())
    }
}
pub fn rand_layout(rng: &mut Rng) -> Layout {
    Layout { style: rng.below(4), comments: *rng.pick(&[0, 0, 20, 60, 200]), unicode: rng.chance(50, 100), crlf: rng.chance(20, 100) }
}
pub fn comment(rng: &mut Rng, unicode: bool, nl: &str) -> String {
    let words: &[&str] = if unicode {
        &["todo", "x", "é中", "😀", "(func)", "\"", ";", "$n", ")", "a b"]
    } else {
        &["todo", "x", "(func)", "\"", ";", "$n", ")", "a b"]
    };
    let mut s = String::new();
    if rng.chance(1, 3) {
        s.push_str(*rng.pick(&[" ", " ", "\t", "  "]));
    }
    for _ in 0..rng.below(3) {
        { let x = *rng.pick(words); s.push_str(x); }
        if rng.chance(1, 2) {
            s.push(if rng.chance(1, 4) { '\t' } else { ' ' });
        }
    }
    match rng.below(4) {
        // (doc comments, some of them indented)
        0 if rng.chance(1, 2) => format!(";;;{}{s}{nl}", rng.pick(&["", " ", "\t", "  ", " \t", "\t ", "    "])),
        0 | 1 => format!(";;{s}{nl}"),
        2 => {
            let mut s = s.replace(';', ":").replace("()", "");
            if rng.chance(1, 4) {
                s.push_str(nl);
                s.push_str(*rng.pick(&["", " ", "  y", "\t\tz ", "   "]));
            }
            format!("(;{s};)")
        }
        _ => {
            let s = s.replace(';', ":");
            let sep = if rng.chance(1, 6) { nl } else { " " };
            format!("(;{s}(;i;){sep}{s};)")
        }
    }
}
pub fn render(d: &Doc, rng: &mut Rng, l: &Layout) -> Rendered {
    let nl = if l.crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut starts = Vec::with_capacity(d.toks.len());
    let mut depth = 0usize;
    for (i, t) in d.toks.iter().enumerate() {
        if i > 0 {
            let prev = &d.toks[i - 1];
            let need = prev.kind != K::L_PAREN && prev.kind != K::R_PAREN && t.kind != K::R_PAREN && t.kind != K::L_PAREN;
            let mut sep = String::new();
            match l.style {
                0 => {
                    if need || rng.chance(1, 10) {
                        sep.push(' ')
                    }
                }
                1 => sep.push(' '),
                2 => {
                    if t.kind == K::L_PAREN && rng.chance(60, 100) {
                        sep.push_str(nl);
                        sep.push_str(&"  ".repeat(depth));
                    } else if need || (t.kind == K::L_PAREN) {
                        sep.push(' ')
                    }
                }
                _ => {
                    let n = rng.below(3) + need as usize;
                    for _ in 0..n {
                        { let x = *rng.pick(&[" ", " ", "  ", nl, nl, "\t", "\n\n", " \n "]); sep.push_str(x); }
                    }
                }
            }
            if rng.below(1000) < l.comments {
                let c = comment(rng, l.unicode, nl);
                // `(` directly followed by `;` would open a block comment
                let glue = if prev.kind == K::L_PAREN && c.starts_with(';') { " " } else { "" };
                if rng.chance(1, 2) {
                    sep.push_str(glue);
                    sep.push_str(&c);
                } else {
                    sep = format!("{glue}{c}{sep}");
                }
                if rng.chance(1, 2) {
                    sep.push(' ');
                }
            }
            text.push_str(&sep);
        } else if rng.below(1000) < l.comments {
            text.push_str(&comment(rng, l.unicode, nl));
        }
        starts.push(text.len());
        text.push_str(&t.text);
        match t.kind {
            K::L_PAREN => depth += 1,
            K::R_PAREN => depth = depth.saturating_sub(1),
            _ => {}
        }
    }
    if rng.chance(1, 2) {
        text.push_str(nl);
    }
    if rng.below(1000) < l.comments {
        text.push_str(&comment(rng, l.unicode, nl));
    }
    Rendered { text, starts }
}
/// Random generation options.
pub fn rand_opts(rng: &mut Rng) -> Opts {
    Opts {
        modules: 1,
        max_fields: rng.range(1, 14),
        depth: rng.range(0, 4),
        numeric: *rng.pick(&[0, 30, 60]),
        share_names: rng.chance(1, 2),
        named: *rng.pick(&[40, 75, 100]),
        flat: rng.chance(70, 100),
        blocks: rng.chance(80, 100),
        imports: rng.chance(70, 100),
        wild: rng.chance(20, 100),
        simd: rng.chance(40, 100),
        unicode: rng.chance(50, 100),
        elem_data: rng.chance(80, 100),
        branches: rng.chance(80, 100),
        fancy_nums: rng.chance(70, 100),
        stmts: rng.range(0, 6),
        even: rng.chance(10, 100),
        ..Opts::default()
    }
}
