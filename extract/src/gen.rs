//! Code written by derive macros, as rustc prints it: absolute paths become the names that the units use, `use` items in
//! function bodies go, and enums declared in a function body get the name of the type appended and move before the impl.
use syn::visit_mut::{self, VisitMut};
use syn::{Item, Stmt};

/// modules whose names are left out of paths
const MODULES: &[&str] = &["instant_xml", "de", "ser", "std", "core", "alloc", "result", "marker", "borrow"];

struct Paths;

/// the position of a qualified self type counts the segments of the path
fn qualified(q: &mut Option<syn::QSelf>, before: usize, p: &syn::Path) {
    if let Some(q) = q {
        q.position = q.position.saturating_sub(before - p.segments.len());
    }
}

impl VisitMut for Paths {
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        let n = e.path.segments.len();
        visit_mut::visit_expr_path_mut(self, e);
        qualified(&mut e.qself, n, &e.path);
    }

    fn visit_type_path_mut(&mut self, e: &mut syn::TypePath) {
        let n = e.path.segments.len();
        visit_mut::visit_type_path_mut(self, e);
        qualified(&mut e.qself, n, &e.path);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let head = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if p.leading_colon.is_some() || head == "instant_xml" || head == "std" {
            p.leading_colon = None;
            let keep: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
            let mut k = 0;
            while k + 1 < keep.len() && MODULES.contains(&keep[k].ident.to_string().as_str()) {
                k += 1;
            }
            p.segments = keep.into_iter().skip(k).collect();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        visit_mut::visit_block_mut(self, b);
    }
}

struct Rename(Vec<syn::Ident>, String);

impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if self.0.contains(i) {
            *i = syn::Ident::new(&format!("{i}_{}", self.1), i.span());
        }
    }
}

fn enums(b: &syn::Block) -> Vec<syn::ItemEnum> {
    b.stmts.iter().filter_map(|s| match s { Stmt::Item(Item::Enum(e)) => Some(e.clone()), _ => None }).collect()
}

pub fn prepare(f: &mut syn::File) {
    Paths.visit_file_mut(f);
    for i in &mut f.items {
        let Item::Impl(im) = i else { continue };
        let name = match &*im.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => continue,
        };
        for it in &mut im.items {
            if let syn::ImplItem::Fn(f) = it {
                let found = enums(&f.block).into_iter().map(|e| e.ident).collect();
                Rename(found, name.clone()).visit_block_mut(&mut f.block);
            }
        }
    }
}

/// the enums in the function bodies of an impl
pub fn local_enums(im: &syn::ItemImpl) -> Vec<syn::ItemEnum> {
    im.items.iter().flat_map(|i| match i { syn::ImplItem::Fn(f) => enums(&f.block), _ => vec![] }).collect()
}

pub fn without_locals(mut im: syn::ItemImpl) -> syn::ItemImpl {
    for i in &mut im.items {
        if let syn::ImplItem::Fn(f) = i {
            f.block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Enum(_))));
        }
    }
    im
}
