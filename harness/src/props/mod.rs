use crate::report::Prop;
mod actions;
mod answers;
mod ast;
mod cost;
mod format;
pub mod nav;
mod memory;
mod parser;
pub mod service;
mod protocol;
mod types;
pub fn all() -> &'static [Prop] {
    static ALL: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        v.extend(parser::props());
        v.extend(format::props());
        v.extend(service::props());
        v.extend(nav::props());
        v.extend(types::props());
        v.extend(answers::props());
        v.extend(actions::props());
        v.extend(protocol::props());
        v.extend(memory::props());
        v.extend(ast::props());
        v.extend(cost::props());
        v
    })
}
