//! Run under the Miri interpreter: everything the tool does with the documents in a file
//! (separated by U+001D). Each line of output is one document that was worked through.
#[allow(dead_code)]
#[path = "../../harness/src/svc.rs"]
mod svc;
use lsp_types::Range;
use rowan::ast::AstNode;
fn main() {
    let file = std::env::args().nth(1).expect("file with documents");
    if file == "-" {
        return;
    }
    std::panic::set_hook(Box::new(|_| ()));
    // numbers that aren't kinds are refused (the largest kind is met in every document)
    use rowan::Language;
    for raw in 0..120 {
        if let Ok(kind) = std::panic::catch_unwind(|| wat_syntax::WatLanguage::kind_from_raw(rowan::SyntaxKind(raw))) {
            assert_eq!(wat_syntax::WatLanguage::kind_to_raw(kind).0, raw);
        }
    }
    let all = std::fs::read_to_string(file).unwrap();
    for (i, text) in all.split('\u{1d}').enumerate() {
        let r = std::panic::catch_unwind(|| {
            let mut p = wat_parser::Parser::new(text);
            let tree = p.parse();
            let mut n = 0;
            for x in tree.descendants_with_tokens() {
                n += x.kind() as usize;
            }
            assert_eq!(tree.to_string().len(), text.len());
            let root = wat_syntax::ast::Root::cast(tree).unwrap();
            let out = wat_formatter::format(&root, &Default::default());
            let s = svc::opened(text);
            let l = svc::Lines::new(text);
            let u = svc::uri(0);
            let mut requests = 0;
            for what in svc::PER_DOC {
                svc::at_doc(&s, &u, what, &[l.pos(0)], 2, true);
                requests += 1;
            }
            // (every kind of request somewhere, not everywhere: the interpreter is slow)
            let marks: Vec<usize> = text.char_indices().map(|(i, _)| i).step_by((text.len() / 5).max(1)).collect();
            for (k, m) in marks.iter().enumerate() {
                let p = l.pos(*m);
                svc::at_pos(&s, &u, svc::PER_POS[(k + i) % svc::PER_POS.len()], p);
                svc::at_range(&s, &u, svc::PER_RANGE[(k + i) % svc::PER_RANGE.len()], Range::new(l.pos(0), p), 2, true);
                requests += 2;
            }
            (n, out.len(), requests)
        });
        match r {
            Ok((_, _, requests)) => println!("done {requests}"),
            Err(_) => println!("panicked"),
        }
    }
}
