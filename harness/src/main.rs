mod gen;
mod lex;
mod mutate;
mod props;
mod report;
mod rng;
mod spec;
mod svc;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).map(|s| s.as_str()).unwrap_or("");
    if id == "gen" {
        let seed: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut r = rng::Rng::new(&[seed]);
        let o = gen::rand_opts(&mut r);
        let d = gen::generate(&mut r, o);
        let l = gen::rand_layout(&mut r);
        println!("{}", gen::render(&d, &mut r, &l).text);
        return;
    }
    if id == "parse" {
        let t = std::io::read_to_string(std::io::stdin()).unwrap();
        let t0 = std::time::Instant::now();
        let mut p = wat_parser::Parser::new(&t);
        let tree = p.parse();
        println!("{:?} {} {:?}", t0.elapsed(), tree.to_string() == t, p.errors());
        if args.len() > 2 { println!("{tree:#?}"); }
        return;
    }
    if id == "fmt" {
        let t = std::io::read_to_string(std::io::stdin()).unwrap();
        let mut o = wat_formatter::config::FormatOptions::default();
        if let Some(w) = args.get(2).and_then(|s| s.parse().ok()) {
            o.layout.print_width = w;
        }
        let mut p = wat_parser::Parser::new(&t);
        use rowan::ast::AstNode;
        print!("{}", wat_formatter::format(&wat_syntax::ast::Root::cast(p.parse()).unwrap(), &o));
        return;
    }
    if id == "rmstat" {
        let mut m: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
        for i in 0..20000u64 {
            let mut r = rng::Rng::new(&[i, 99]);
            let o = gen::rand_opts(&mut r);
            let d = gen::generate(&mut r, o);
            let l = gen::rand_layout(&mut r);
            let x = gen::render(&d, &mut r, &l);
            for _ in 0..20 {
                let t = r.below(d.toks.len());
                let (s, e) = x.range(&d, t);
                let text = format!("{} {}", &x.text[..s], &x.text[e..]);
                let mut p = wat_parser::Parser::new(&text);
                p.parse();
                let k = d.toks[t].kind;
                let key = format!("{:?} {:?} {}", d.nodes[d.toks[t].parent].kind, k, if k == wat_syntax::SyntaxKind::KEYWORD { d.toks[t].text.clone() } else { String::new() });
                let en = m.entry(key).or_default();
                en.0 += 1;
                if p.errors().is_empty() { en.1 += 1; if en.2.is_empty() || en.2.len() > text.len() { en.2 = text; } }
            }
        }
        for (k, (n, ok, t)) in m { println!("{k}: {n} {ok} {}", t.replace('\n', " ").chars().take(160).collect::<String>()); }
        return;
    }
    if id == "hostile" {
        // the document of a case of C01
        let i: u64 = args[2].parse().unwrap();
        let mut r = rng::Rng::new(&[report::seed(), rng::hash_str("C01"), i]);
        print!("{}", mutate::hostile(&mut r).0);
        return;
    }
    if id == "diag" {
        let t = std::io::read_to_string(std::io::stdin()).unwrap();
        let s = svc::opened(&t);
        for d in svc::diagnostics(&s, &svc::uri(0)) {
            println!("{}:{}-{}:{} {}", d.range.start.line, d.range.start.character, d.range.end.line, d.range.end.character, d.message);
        }
        return;
    }
    let Some(prop) = props::all().iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    match args.get(2).map(|s| s.as_str()) {
        Some("--worker") => {
            let p: Vec<f64> = args[3].split('/').map(|x| x.parse().unwrap()).collect();
            let only = args.get(5).and_then(|s| s.parse().ok());
            report::worker(prop, p[0] as u64, p[1] as u64, p[2] as u64, std::path::Path::new(&args[4]), only, p[3])
        }
        Some("--replay") => {
            std::env::set_var("WLT_VERBOSE", "1");
            let n: u64 = args[3].parse().unwrap();
            let dir = std::env::temp_dir();
            report::worker(prop, 0, 1, 1, &dir, Some(n), 1e9)
        }
        _ => std::process::exit(report::parent(prop)),
    }
}
