//! Developer tool: annotated programs on stdin -> records of the corpus (kind, args, input).
use quote::ToTokens;
use syn::visit::Visit;
struct V(Vec<String>);
fn take(attrs: &[syn::Attribute]) -> Option<(usize, &'static str, String)> {
    attrs.iter().enumerate().find_map(|(i, a)| {
        let l = a.path().segments.last()?.ident.to_string();
        let k = if l == "auto_enum" { "auto_enum" } else if l == "enum_derive" { "enum_derive" } else { return None };
        let args = match &a.meta { syn::Meta::List(l) => l.tokens.to_string(), _ => String::new() };
        Some((i, k, args))
    })
}
macro_rules! out { ($s:expr, $n:expr, $go:expr) => {{
    if let Some((i, k, args)) = take(&$n.attrs) {
        let mut n = $n.clone();
        n.attrs.remove(i);
        $s.0.push(format!("{k}\t{args}\t{}", n.to_token_stream().to_string().replace('\n', " ").replace('\t', " ")));
    }
    $go
}} }
impl<'a> Visit<'a> for V {
    fn visit_item_fn(&mut self, n: &'a syn::ItemFn) { out!(self, n, syn::visit::visit_item_fn(self, n)) }
    fn visit_item_enum(&mut self, n: &'a syn::ItemEnum) { out!(self, n, ()) }
    fn visit_local(&mut self, n: &'a syn::Local) { out!(self, n, syn::visit::visit_local(self, n)) }
    fn visit_impl_item_fn(&mut self, n: &'a syn::ImplItemFn) { out!(self, n, syn::visit::visit_impl_item_fn(self, n)) }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        macro_rules! ex { ($($v:ident)*) => { match e { $(syn::Expr::$v(n) => out!(self, n, ()),)* _ => {} } } }
        ex!(If Match Block Loop ForLoop While Closure Async Unsafe Call MethodCall Return Paren Assign Let);
        syn::visit::visit_expr(self, e);
    }
}
fn main() {
    let s = std::io::read_to_string(std::io::stdin()).unwrap();
    let mut v = V(vec![]);
    for p in s.split("\n=====\n") {
        match syn::parse_file(p) { Ok(f) => v.visit_file(&f), Err(e) => eprintln!("skip: {e}") }
    }
    for l in v.0 { println!("{l}") }
}
