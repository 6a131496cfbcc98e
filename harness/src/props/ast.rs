//! C33: the typed views of `wat_syntax::ast` against the untyped tree.
use crate::{mutate, report::*, rng::Rng};
use rowan::ast::AstNode;
use wat_parser::Parser;
use wat_syntax::{ast::*, SyntaxKind as K, SyntaxNode, SyntaxToken};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C33",
        quick: 120_000,
        thorough: 1_000_000,
        rule: "one evaluation = one document, every node of which is viewed as every type of the typed tree, every accessor compared with the direct children of the node; non-trivial when the document has more than ten nodes",
        assumptions: &["the names of accessors say what they return"],
        required: &["accessors_compared", "found", "not_found", "variants_checked", "views_refused", "broken_documents", "view:Root", "view:BlockBlock", "view:BlockIf", "view:BlockIfElse", "view:BlockIfThen", "view:BlockLoop", "view:BlockType", "view:Operand", "view:PlainInstr", "view:Data", "view:Elem", "view:ElemExpr", "view:ElemList", "view:Export", "view:ExportDescFunc", "view:ExportDescGlobal", "view:ExportDescMemory", "view:ExportDescTable", "view:Import", "view:ImportDescGlobalType", "view:ImportDescMemoryType", "view:ImportDescTableType", "view:ImportDescTypeUse", "view:Index", "view:Local", "view:MemUse", "view:Module", "view:ModuleFieldData", "view:ModuleFieldElem", "view:ModuleFieldExport", "view:ModuleFieldFunc", "view:ModuleFieldGlobal", "view:ModuleFieldImport", "view:ModuleFieldMemory", "view:ModuleFieldStart", "view:ModuleFieldTable", "view:ModuleFieldType", "view:ModuleName", "view:Name", "view:Offset", "view:TableUse", "view:TypeUse", "view:FuncType", "view:GlobalType", "view:Limits", "view:MemoryType", "view:Param", "view:Result", "view:TableType", "view:ValType"],
        case: c33,
        probes: Some(kinds),
    }]
}
fn toks(n: &SyntaxNode) -> Vec<SyntaxToken> {
    n.children_with_tokens().filter_map(|x| x.into_token()).collect()
}
fn nodes(n: &SyntaxNode, kinds: &[K]) -> Vec<SyntaxNode> {
    n.children().filter(|x| kinds.contains(&x.kind())).collect()
}
/// The name after the first keyword, or that after `end` or the closing parenthesis.
fn label(n: &SyntaxNode, after: bool) -> Option<SyntaxToken> {
    let mut ended = false;
    for t in toks(n) {
        ended |= t.kind() == K::R_PAREN || t.kind() == K::KEYWORD && t.text() == "end";
        if t.kind() == K::IDENT && ended == after {
            return Some(t);
        }
    }
    None
}
fn where_<T: ToString>(x: &[T]) -> String {
    x.iter().map(|x| x.to_string().chars().take(30).collect::<String>()).collect::<Vec<_>>().join(" | ")
}
fn differs<T: PartialEq + ToString>(cx: &mut Cx, what: &str, got: Vec<T>, want: Vec<T>, inp: &str) {
    cx.count("accessors_compared", 1);
    cx.count(if want.is_empty() { "not_found" } else { "found" }, 1);
    if got != want {
        cx.fail("accessor", format!("{what} returns [{}], the node has [{}]", where_(&got), where_(&want)), inp);
    }
}
macro_rules! acc {
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, tok, $f:ident, $k:ident) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().into_iter().collect(), toks($n).into_iter().filter(|t| t.kind() == K::$k).take(1).collect(), $inp)
    };
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, toks, $f:ident, $k:ident) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().collect(), toks($n).into_iter().filter(|t| t.kind() == K::$k).collect(), $inp)
    };
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, nth, $f:ident, ($k:ident, $i:expr)) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().into_iter().collect(), toks($n).into_iter().filter(|t| t.kind() == K::$k).skip($i).take(1).collect(), $inp)
    };
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, kw, $f:ident, $w:expr) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().into_iter().collect(), toks($n).into_iter().filter(|t| t.kind() == K::KEYWORD && t.text() == $w).take(1).collect(), $inp)
    };
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, label, $f:ident, $after:expr) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().into_iter().collect(), label($n, $after).into_iter().collect(), $inp)
    };
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, child, $f:ident, $ks:expr) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().into_iter().map(|x| x.syntax().clone()).collect(), nodes($n, $ks).into_iter().take(1).collect(), $inp)
    };
    ($cx:ident, $n:ident, $inp:ident, $v:ident, $ty:ident, children, $f:ident, $ks:expr) => {
        differs($cx, concat!(stringify!($ty), "::", stringify!($f)), $v.$f().map(|x| x.syntax().clone()).collect(), nodes($n, $ks), $inp)
    };
}
macro_rules! view {
    ($cx:ident, $n:ident, $seen:ident, $inp:ident, $ty:ident, $ks:expr, { $($how:ident $f:ident $x:tt);* }) => {
        let fits = $ks.contains(&$n.kind());
        match $ty::cast($n.clone()) {
            Some(v) if fits => {
                $seen.insert(stringify!($ty));
                if v.syntax() != $n {
                    $cx.fail("syntax", concat!(stringify!($ty), " has another node than the one it was made of").into(), $inp);
                }
                $(acc!($cx, $n, $inp, v, $ty, $how, $f, $x);)*
            }
            None if !fits => {}
            v => $cx.fail("cast", format!("{:?} as {}: {}", $n.kind(), stringify!($ty), v.is_some()), $inp),
        }
    };
}
/// Which types take nodes of which kinds.
fn kinds(cx: &mut Cx) {
    let all: Vec<K> = (0..=u16::from(rowan::SyntaxKind::from(K::ROOT).0)).map(|k| <wat_syntax::WatLanguage as rowan::Language>::kind_from_raw(rowan::SyntaxKind(k))).collect();
    macro_rules! can {
        ($ty:ident, $ks:expr) => {
            for k in &all {
                cx.eval(concat!("kinds of ", stringify!($ty)), true);
                if $ty::can_cast(*k) != $ks.contains(k) {
                    cx.fail("can-cast", format!("{}::can_cast({k:?}) is {}", stringify!($ty), $ty::can_cast(*k)), stringify!($ty));
                }
            }
        };
    }
    can!(Root, &[K::ROOT]);
    can!(BlockBlock, &[K::BLOCK_BLOCK]);
    can!(BlockIf, &[K::BLOCK_IF]);
    can!(BlockIfElse, &[K::BLOCK_IF_ELSE]);
    can!(BlockIfThen, &[K::BLOCK_IF_THEN]);
    can!(BlockLoop, &[K::BLOCK_LOOP]);
    can!(BlockType, &[K::BLOCK_TYPE]);
    can!(Operand, &[K::OPERAND]);
    can!(PlainInstr, &[K::PLAIN_INSTR]);
    can!(Data, &[K::DATA]);
    can!(Elem, &[K::ELEM]);
    can!(ElemExpr, &[K::ELEM_EXPR]);
    can!(ElemList, &[K::ELEM_LIST]);
    can!(Export, &[K::EXPORT]);
    can!(ExportDescFunc, &[K::EXPORT_DESC_FUNC]);
    can!(ExportDescGlobal, &[K::EXPORT_DESC_GLOBAL]);
    can!(ExportDescMemory, &[K::EXPORT_DESC_MEMORY]);
    can!(ExportDescTable, &[K::EXPORT_DESC_TABLE]);
    can!(Import, &[K::IMPORT]);
    can!(ImportDescGlobalType, &[K::IMPORT_DESC_GLOBAL_TYPE]);
    can!(ImportDescMemoryType, &[K::IMPORT_DESC_MEMORY_TYPE]);
    can!(ImportDescTableType, &[K::IMPORT_DESC_TABLE_TYPE]);
    can!(ImportDescTypeUse, &[K::IMPORT_DESC_TYPE_USE]);
    can!(Index, &[K::INDEX]);
    can!(Local, &[K::LOCAL]);
    can!(MemUse, &[K::MEM_USE]);
    can!(Module, &[K::MODULE]);
    can!(ModuleFieldData, &[K::MODULE_FIELD_DATA]);
    can!(ModuleFieldElem, &[K::MODULE_FIELD_ELEM]);
    can!(ModuleFieldExport, &[K::MODULE_FIELD_EXPORT]);
    can!(ModuleFieldFunc, &[K::MODULE_FIELD_FUNC]);
    can!(ModuleFieldGlobal, &[K::MODULE_FIELD_GLOBAL]);
    can!(ModuleFieldImport, &[K::MODULE_FIELD_IMPORT]);
    can!(ModuleFieldMemory, &[K::MODULE_FIELD_MEMORY]);
    can!(ModuleFieldStart, &[K::MODULE_FIELD_START]);
    can!(ModuleFieldTable, &[K::MODULE_FIELD_TABLE]);
    can!(ModuleFieldType, &[K::MODULE_FIELD_TYPE]);
    can!(ModuleName, &[K::MODULE_NAME]);
    can!(Name, &[K::NAME]);
    can!(Offset, &[K::OFFSET]);
    can!(TableUse, &[K::TABLE_USE]);
    can!(TypeUse, &[K::TYPE_USE]);
    can!(FuncType, &[K::FUNC_TYPE]);
    can!(GlobalType, &[K::GLOBAL_TYPE]);
    can!(Limits, &[K::LIMITS]);
    can!(MemoryType, &[K::MEMORY_TYPE]);
    can!(Param, &[K::PARAM]);
    can!(Result, &[K::RESULT]);
    can!(TableType, &[K::TABLE_TYPE]);
    can!(ValType, &[K::VAL_TYPE]);
    can!(Instr, &[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]);
    can!(BlockInstr, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]);
    can!(ExportDesc, &[K::EXPORT_DESC_FUNC, K::EXPORT_DESC_GLOBAL, K::EXPORT_DESC_MEMORY, K::EXPORT_DESC_TABLE]);
    can!(ImportDesc, &[K::IMPORT_DESC_GLOBAL_TYPE, K::IMPORT_DESC_MEMORY_TYPE, K::IMPORT_DESC_TABLE_TYPE, K::IMPORT_DESC_TYPE_USE]);
    can!(ModuleField, &[K::MODULE_FIELD_DATA, K::MODULE_FIELD_ELEM, K::MODULE_FIELD_EXPORT, K::MODULE_FIELD_FUNC, K::MODULE_FIELD_GLOBAL, K::MODULE_FIELD_IMPORT, K::MODULE_FIELD_MEMORY, K::MODULE_FIELD_START, K::MODULE_FIELD_TABLE, K::MODULE_FIELD_TYPE]);
}
fn views(cx: &mut Cx, n: &SyntaxNode, seen: &mut std::collections::BTreeSet<&'static str>, inp: &str) {
    view!(cx, n, seen, inp, Root, &[K::ROOT], { children modules (&[K::MODULE]) });
    view!(cx, n, seen, inp, BlockBlock, &[K::BLOCK_BLOCK], { tok l_paren_token L_PAREN; tok keyword KEYWORD; label ident_token false; child block_type (&[K::BLOCK_TYPE]); children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN; kw end_keyword "end"; label end_ident_token true });
    view!(cx, n, seen, inp, BlockIf, &[K::BLOCK_IF], { tok l_paren_token L_PAREN; tok keyword KEYWORD; label ident_token false; child block_type (&[K::BLOCK_TYPE]); children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); child then_block (&[K::BLOCK_IF_THEN]); child else_block (&[K::BLOCK_IF_ELSE]); tok r_paren_token R_PAREN; kw end_keyword "end"; label end_ident_token true });
    view!(cx, n, seen, inp, BlockIfElse, &[K::BLOCK_IF_ELSE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, BlockIfThen, &[K::BLOCK_IF_THEN], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, BlockLoop, &[K::BLOCK_LOOP], { tok l_paren_token L_PAREN; tok keyword KEYWORD; label ident_token false; child block_type (&[K::BLOCK_TYPE]); children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN; kw end_keyword "end"; label end_ident_token true });
    view!(cx, n, seen, inp, BlockType, &[K::BLOCK_TYPE], { child result (&[K::RESULT]); child type_use (&[K::TYPE_USE]) });
    view!(cx, n, seen, inp, Operand, &[K::OPERAND], { tok float FLOAT; tok int INT; tok string STRING; tok ident IDENT; child type_use (&[K::TYPE_USE]); child instr (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok mem_arg MEM_ARG; tok heap_type HEAP_TYPE });
    view!(cx, n, seen, inp, PlainInstr, &[K::PLAIN_INSTR], { tok l_paren_token L_PAREN; tok instr_name INSTR_NAME; children operands (&[K::OPERAND]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Data, &[K::DATA], { tok l_paren_token L_PAREN; tok keyword KEYWORD; toks string_tokens STRING; tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Elem, &[K::ELEM], { tok l_paren_token L_PAREN; tok keyword KEYWORD; children elem_exprs (&[K::ELEM_EXPR]); children indexes (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ElemExpr, &[K::ELEM_EXPR], { tok l_paren_token L_PAREN; tok keyword KEYWORD; children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ElemList, &[K::ELEM_LIST], { tok func_keyword KEYWORD; children indexes (&[K::INDEX]); tok ref_type REF_TYPE; children elem_exprs (&[K::ELEM_EXPR]) });
    view!(cx, n, seen, inp, Export, &[K::EXPORT], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child name (&[K::NAME]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ExportDescFunc, &[K::EXPORT_DESC_FUNC], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ExportDescGlobal, &[K::EXPORT_DESC_GLOBAL], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ExportDescMemory, &[K::EXPORT_DESC_MEMORY], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ExportDescTable, &[K::EXPORT_DESC_TABLE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Import, &[K::IMPORT], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child module_name (&[K::MODULE_NAME]); child name (&[K::NAME]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ImportDescGlobalType, &[K::IMPORT_DESC_GLOBAL_TYPE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child global_type (&[K::GLOBAL_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ImportDescMemoryType, &[K::IMPORT_DESC_MEMORY_TYPE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child memory_type (&[K::MEMORY_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ImportDescTableType, &[K::IMPORT_DESC_TABLE_TYPE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child table_type (&[K::TABLE_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ImportDescTypeUse, &[K::IMPORT_DESC_TYPE_USE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child type_use (&[K::TYPE_USE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Index, &[K::INDEX], { tok ident_token IDENT; tok unsigned_int_token UNSIGNED_INT });
    view!(cx, n, seen, inp, Local, &[K::LOCAL], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; children val_types (&[K::VAL_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, MemUse, &[K::MEM_USE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Module, &[K::MODULE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; children module_fields (&[K::MODULE_FIELD_DATA, K::MODULE_FIELD_ELEM, K::MODULE_FIELD_EXPORT, K::MODULE_FIELD_FUNC, K::MODULE_FIELD_GLOBAL, K::MODULE_FIELD_IMPORT, K::MODULE_FIELD_MEMORY, K::MODULE_FIELD_START, K::MODULE_FIELD_TABLE, K::MODULE_FIELD_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldData, &[K::MODULE_FIELD_DATA], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child mem_use (&[K::MEM_USE]); child offset (&[K::OFFSET]); toks string_tokens STRING; tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldElem, &[K::MODULE_FIELD_ELEM], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; kw declare_keyword "declare"; child table_use (&[K::TABLE_USE]); child offset (&[K::OFFSET]); child elem_list (&[K::ELEM_LIST]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldExport, &[K::MODULE_FIELD_EXPORT], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child name (&[K::NAME]); child export_desc (&[K::EXPORT_DESC_FUNC, K::EXPORT_DESC_GLOBAL, K::EXPORT_DESC_MEMORY, K::EXPORT_DESC_TABLE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldFunc, &[K::MODULE_FIELD_FUNC], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child import (&[K::IMPORT]); children exports (&[K::EXPORT]); child type_use (&[K::TYPE_USE]); children locals (&[K::LOCAL]); children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldGlobal, &[K::MODULE_FIELD_GLOBAL], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child import (&[K::IMPORT]); child export (&[K::EXPORT]); child global_type (&[K::GLOBAL_TYPE]); children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldImport, &[K::MODULE_FIELD_IMPORT], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child module_name (&[K::MODULE_NAME]); child name (&[K::NAME]); child import_desc (&[K::IMPORT_DESC_GLOBAL_TYPE, K::IMPORT_DESC_MEMORY_TYPE, K::IMPORT_DESC_TABLE_TYPE, K::IMPORT_DESC_TYPE_USE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldMemory, &[K::MODULE_FIELD_MEMORY], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child import (&[K::IMPORT]); child export (&[K::EXPORT]); child memory_type (&[K::MEMORY_TYPE]); child data (&[K::DATA]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldStart, &[K::MODULE_FIELD_START], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldTable, &[K::MODULE_FIELD_TABLE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child import (&[K::IMPORT]); child export (&[K::EXPORT]); child table_type (&[K::TABLE_TYPE]); tok ref_type REF_TYPE; child elem (&[K::ELEM]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleFieldType, &[K::MODULE_FIELD_TYPE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; child func_type (&[K::FUNC_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, ModuleName, &[K::MODULE_NAME], { tok string_token STRING });
    view!(cx, n, seen, inp, Name, &[K::NAME], { tok string_token STRING });
    view!(cx, n, seen, inp, Offset, &[K::OFFSET], { tok l_paren_token L_PAREN; tok keyword KEYWORD; children instrs (&[K::PLAIN_INSTR, K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, TableUse, &[K::TABLE_USE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, TypeUse, &[K::TYPE_USE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; child index (&[K::INDEX]); tok r_paren_token R_PAREN; children params (&[K::PARAM]); children results (&[K::RESULT]) });
    view!(cx, n, seen, inp, FuncType, &[K::FUNC_TYPE], { tok l_paren_token L_PAREN; tok keyword KEYWORD; children params (&[K::PARAM]); children results (&[K::RESULT]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, GlobalType, &[K::GLOBAL_TYPE], { tok l_paren_token L_PAREN; tok mut_keyword KEYWORD; child val_type (&[K::VAL_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Limits, &[K::LIMITS], { tok min UNSIGNED_INT; nth max (UNSIGNED_INT, 1); tok share SHARE });
    view!(cx, n, seen, inp, MemoryType, &[K::MEMORY_TYPE], { child limits (&[K::LIMITS]) });
    view!(cx, n, seen, inp, Param, &[K::PARAM], { tok l_paren_token L_PAREN; tok keyword KEYWORD; tok ident_token IDENT; children val_types (&[K::VAL_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, Result, &[K::RESULT], { tok l_paren_token L_PAREN; tok keyword KEYWORD; children val_types (&[K::VAL_TYPE]); tok r_paren_token R_PAREN });
    view!(cx, n, seen, inp, TableType, &[K::TABLE_TYPE], { child limits (&[K::LIMITS]); tok ref_type REF_TYPE });
    view!(cx, n, seen, inp, ValType, &[K::VAL_TYPE], { tok num_type NUM_TYPE; tok vec_type VEC_TYPE; tok ref_type REF_TYPE });
}
/// Views that are one of several.
fn variants(cx: &mut Cx, n: &SyntaxNode, inp: &str) {
    macro_rules! one_of {
        ($ty:ident, [$($v:ident $k:ident),*]) => {
            match $ty::cast(n.clone()) {
                None => {
                    cx.count("views_refused", 1);
                    if [$(K::$k),*].contains(&n.kind()) {
                        cx.fail("cast", format!("{:?} is no {}", n.kind(), stringify!($ty)), inp);
                    }
                }
                Some(x) => {
                    cx.count("variants_checked", 1);
                    let (kind, inner) = match &x { $($ty::$v(i) => (K::$k, i.syntax().clone()),)* };
                    if n.kind() != kind || inner != *n || x.syntax() != n {
                        cx.fail("variant", format!("{:?} becomes {x:?}", n.kind()), inp);
                    }
                }
            }
        };
    }
    one_of!(BlockInstr, [Block BLOCK_BLOCK, Loop BLOCK_LOOP, If BLOCK_IF]);
    one_of!(ExportDesc, [Func EXPORT_DESC_FUNC, Global EXPORT_DESC_GLOBAL, Memory EXPORT_DESC_MEMORY, Table EXPORT_DESC_TABLE]);
    one_of!(ImportDesc, [GlobalType IMPORT_DESC_GLOBAL_TYPE, MemoryType IMPORT_DESC_MEMORY_TYPE, TableType IMPORT_DESC_TABLE_TYPE, TypeUse IMPORT_DESC_TYPE_USE]);
    one_of!(
        ModuleField,
        [Data MODULE_FIELD_DATA, Elem MODULE_FIELD_ELEM, Export MODULE_FIELD_EXPORT, Func MODULE_FIELD_FUNC, Global MODULE_FIELD_GLOBAL, Import MODULE_FIELD_IMPORT, Memory MODULE_FIELD_MEMORY, Start MODULE_FIELD_START, Table MODULE_FIELD_TABLE, Type MODULE_FIELD_TYPE]
    );
    let block = matches!(n.kind(), K::BLOCK_BLOCK | K::BLOCK_LOOP | K::BLOCK_IF);
    match Instr::cast(n.clone()) {
        Some(x @ Instr::Plain(_)) if n.kind() == K::PLAIN_INSTR && x.syntax() == n => {}
        Some(Instr::Block(b)) if block && BlockInstr::cast(n.clone()).as_ref() == Some(&b) && b.syntax() == n => {}
        None if !block && n.kind() != K::PLAIN_INSTR => {}
        x => cx.fail("variant", format!("{:?} becomes {x:?}", n.kind()), inp),
    }
}
fn c33(cx: &mut Cx, rng: &mut Rng, idx: u64) {
    let broken = rng.chance(1, 4);
    let text = if broken { mutate::hostile(rng).0 } else { mutate::valid(rng) };
    let Some((root, errs)) = cx.guard("parse", &text, || {
        let mut p = Parser::new(&text);
        let root: SyntaxNode = p.parse();
        (root, p.errors().len())
    }) else {
        return;
    };
    if errs > 0 {
        cx.count("broken_documents", 1);
    }
    let mut seen = Default::default();
    let mut n = 0;
    for node in root.descendants().take(400) {
        n += 1;
        views(cx, &node, &mut seen, &text);
        variants(cx, &node, &text);
        if cx.fails.len() > 4 {
            break;
        }
    }
    cx.eval(&text, n > 10);
    for t in &seen {
        cx.state(t);
        cx.count(&format!("view:{t}"), 1);
    }
    if idx < 3 {
        cx.sample(serde_json::json!({"document": text.chars().take(200).collect::<String>(), "nodes": n, "types_seen": seen.len()}));
    }
}
